"""command line options of the programs and what they set

For each program: the arguments it requires, whether parameter files are read,
the function main() calls, the values that function gets when nothing else is
given, the parameter with one call per value (loop), and the options as
(spellings, kind, type, number of values, choices, parameters they set).
"""

PROGRAMS = {}

PROGRAMS['aod1b_geocenter'] = dict(
    required=['--product', 'glo'],
    files='@',
    exclusive=[],
    function='aod1b_geocenter', loop=('DSET', ['glo']),
    values={
        'base_dir': ('path', '{cwd}'),
        'DREL': '',
        'DSET': 'glo',
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str.lower', '+', ['atm', 'ocn', 'glo',
            'oba'], ['DSET']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['aod1b_oblateness'] = dict(
    required=['--product', 'glo'],
    files='@',
    exclusive=[],
    function='aod1b_oblateness', loop=('DSET', ['glo']),
    values={
        'base_dir': ('path', '{cwd}'),
        'DREL': '',
        'DSET': 'glo',
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str.lower', '+', ['atm', 'ocn', 'glo',
            'oba'], ['DSET']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['calc_degree_one'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='calc_degree_one', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'MODEL': 'MPIOM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'MMAX': None,
        'DESTRIPE': False,
        'LOVE_NUMBERS': 0,
        'LOVE_K1': 0.021,
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'MODEL_INDEX': None,
        'ITERATIVE': False,
        'SOLVER': 'lstsq',
        'FINGERPRINT': False,
        'EXPANSION': 240,
        'LANDMASK': ('path', '{package}/data/land_fcn_300km.nc'),
        'PLOT': False,
        'COPY': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--kl', '-k'], 'Store', 'float', '?', None, ['LOVE_K1']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--ocean-model'], 'Store', 'str', None, ['OMCT', 'MPIOM',
            'ECCO_kf080i', 'ECCO_dr080i', 'ECCO_V4r3', 'ECCO_V4r4', 'ECCO_V5alpha'],
            ['MODEL']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--ocean-file'], 'Store', 'Path', None, None, ['MODEL_INDEX']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--iterative'], 'StoreTrue', None, None, None, ['ITERATIVE']),
        (['--solver', '-s'], 'Store', 'str', None, ['inv', 'lstsq', 'gelsd',
            'gelsy', 'gelss'], ['SOLVER']),
        (['--fingerprint'], 'StoreTrue', None, None, None, ['FINGERPRINT']),
        (['--expansion', '-e'], 'Store', 'int', None, None, ['EXPANSION']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--plot', '-p'], 'StoreTrue', None, None, None, ['PLOT']),
        (['--copy', '-C'], 'StoreTrue', None, None, None, ['COPY']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['calc_harmonic_resolution'] = dict(
    required=['--lmax', '60'],
    files=None,
    exclusive=[],
    function='calc_harmonic_resolution', loop=('LMAX', [60]),
    values={
        'LMAX': 60,
        'RADIUS': 6371.0008,
        'SPH_CAP': False,
    },
    options=[
        (['--lmax', '-l'], 'Store', 'int', '+', None, ['LMAX']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RADIUS']),
        (['--cap', '-C'], 'StoreTrue', None, None, None, ['SPH_CAP']),
    ],
)

PROGRAMS['calc_mascon'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='calc_mascon', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'LMIN': 1,
        'MMAX': None,
        'DESTRIPE': False,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'MASCON_FILE': None,
        'MASCON_FORMAT': 'netCDF4',
        'REDISTRIBUTE_MASCONS': False,
        'FIT_METHOD': 1,
        'SOLVER': 'lstsq',
        'REMOVE_FILES': None,
        'REMOVE_FORMAT': None,
        'REDISTRIBUTE_REMOVED': False,
        'RECONSTRUCT': False,
        'RECONSTRUCT_FILE': None,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--mascon-file'], 'Store', 'Path', None, None, ['MASCON_FILE']),
        (['--mascon-format'], 'Store', 'str', None, ['ascii', 'netCDF4',
            'HDF5'], ['MASCON_FORMAT']),
        (['--redistribute-mascons'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_MASCONS']),
        (['--fit-method'], 'Store', 'int', None, ['1', '2'], ['FIT_METHOD']),
        (['--solver', '-s'], 'Store', 'str', None, ['inv', 'lstsq', 'gelsd',
            'gelsy', 'gelss'], ['SOLVER']),
        (['--remove-file'], 'Store', 'Path', '+', None, ['REMOVE_FILES']),
        (['--remove-format'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['REMOVE_FORMAT']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--remove-reconstruct'], 'StoreTrue', None, None, None,
            ['RECONSTRUCT']),
        (['--reconstruct-file'], 'Store', 'Path', None, None,
            ['RECONSTRUCT_FILE']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['calc_sensitivity_kernel'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='calc_sensitivity_kernel', loop=(None, None),
    values={
        'LMAX': 60,
        'RAD': 0,
        'LMIN': 1,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DATAFORM': 'netCDF4',
        'MASCON_FILE': None,
        'REDISTRIBUTE_MASCONS': False,
        'FIT_METHOD': 1,
        'SOLVER': 'lstsq',
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'SPATIAL': False,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'MODE': 509,
    },
    options=[
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mascon-file'], 'Store', 'Path', None, None, ['MASCON_FILE']),
        (['--redistribute-mascons'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_MASCONS']),
        (['--fit-method'], 'Store', 'int', None, ['1', '2'], ['FIT_METHOD']),
        (['--solver', '-s'], 'Store', 'str', None, ['inv', 'lstsq', 'gelsd',
            'gelsy', 'gelss'], ['SOLVER']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--spatial', '-o'], 'StoreTrue', None, None, None, ['SPATIAL']),
        (['--spacing', '-S'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval', '-I'], 'Store', 'int', None, ['1', '2', '3'],
            ['INTERVAL']),
        (['--bounds', '-B'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['cnes_grace_sync'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='cnes_grace_sync', loop=(None, None),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'DREL': ['RL05'],
        'TIMEOUT': 360,
        'LOG': False,
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--release', '-r'], 'Store', 'str', '+', ['RL01', 'RL02', 'RL03',
            'RL04', 'RL05'], ['DREL']),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['combine_harmonics'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='combine_harmonics', loop=(None, None),
    values={
        'INPUT_FILE': None,
        'OUTPUT_FILE': None,
        'LMAX': 60,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'RAD': 0,
        'DESTRIPE': False,
        'UNITS': 1,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'REDISTRIBUTE': False,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'MEAN_FILE': None,
        'DATAFORM': 'netCDF4',
        'DATE': False,
        'MODE': 509,
    },
    options=[
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['0', '1', '2', '3', '4',
            '5'], ['UNITS']),
        (['--spacing', '-S'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval', '-I'], 'Store', 'int', None, ['1', '2', '3'],
            ['INTERVAL']),
        (['--bounds', '-B'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--redistribute-mass'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--mean'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['DATAFORM']),
        (['--date', '-D'], 'StoreTrue', None, None, None, ['DATE']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['convert_harmonics'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='convert_harmonics', loop=(None, None),
    values={
        'INPUT_FILE': None,
        'OUTPUT_FILE': None,
        'LMAX': 60,
        'MMAX': None,
        'UNITS': 1,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'FILL_VALUE': None,
        'HEADER': None,
        'DATAFORM': 'netCDF4',
        'DATE': False,
        'MODE': 509,
    },
    options=[
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3'], ['UNITS']),
        (['--spacing', '-S'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval', '-I'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--fill-value', '-f'], 'Store', 'float', None, None, ['FILL_VALUE']),
        (['--header'], 'Store', 'int', None, None, ['HEADER']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--date', '-D'], 'StoreTrue', None, None, None, ['DATE']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['dealiasing_global_uplift'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='dealiasing_global_uplift', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'DREL': '',
        'DSET': 'glo',
        'YEAR': [2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009,
            2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017, 2018, 2019, 2020, 2021,
            2022, 2023],
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'DATAFORM': 'netCDF4',
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str.lower', None, ['atm', 'ocn', 'glo',
            'oba'], ['DSET']),
        (['--year', '-Y'], 'Store', 'int', '+', None, ['YEAR']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--spacing', '-S'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval', '-I'], 'Store', 'int', None, ['1', '2', '3'],
            ['INTERVAL']),
        (['--bounds', '-B'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['dealiasing_monthly_mean'] = dict(
    required=['--center', 'xx', '--product', 'GAA'],
    files='@',
    exclusive=[],
    function='dealiasing_monthly_mean', loop=('DSET', ['GAA']),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GAA',
        'LMAX': 180,
        'DATAFORM': 'netCDF4',
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str.upper', '+', ['GAA', 'GAB', 'GAC',
            'GAD'], ['DSET']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'SHM'], ['DATAFORM']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['esa_costg_swarm_sync'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='esa_costg_swarm_sync', loop=(None, None),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'RELEASE': 'RL01',
        'TIMEOUT': 360,
        'LOG': False,
        'LIST': False,
        'CLOBBER': False,
        'CHECKSUM': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--release', '-r'], 'Store', 'str', None, ['RL01'], []),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--list', '-L'], 'StoreTrue', None, None, None, ['LIST']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--checksum'], 'StoreTrue', None, None, None, ['CHECKSUM']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['geocenter_compare_tellus'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='geocenter_compare_tellus', loop=(None, None),
    values={
        'grace_dir': ('path', '{cwd}'),
        'DREL': 'RL06',
        'START_MON': 4,
        'END_MON': 231,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 200, 201],
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['grace_dir']),
        (['--release', '-r'], 'Store', 'str', None, ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START_MON']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END_MON']),
        (['--missing', '-M'], 'Store', 'int', '+', None, ['MISSING']),
    ],
)

PROGRAMS['geocenter_monte_carlo'] = dict(
    required=['--center', 'xx'],
    files=None,
    exclusive=[],
    function='geocenter_monte_carlo', loop=(None, None),
    values={
        'grace_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'START_MON': 4,
        'END_MON': 236,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 200, 201],
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['grace_dir']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START_MON']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END_MON']),
        (['--missing', '-M'], 'Store', 'int', '+', None, ['MISSING']),
    ],
)

PROGRAMS['geocenter_ocean_models'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='geocenter_ocean_models', loop=('PROC', ['CSR', 'GFZ', 'JPL']),
    values={
        'grace_dir': ('path', '{cwd}'),
        'PROC': 'CSR',
        'DREL': 'RL06',
        'MODEL': None,
        'START_MON': 4,
        'END_MON': 227,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 200, 201],
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['grace_dir']),
        (['--center', '-c'], 'Store', 'str', '+', ['CSR', 'GFZ', 'JPL'],
            ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START_MON']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END_MON']),
        (['--missing', '-M'], 'Store', 'int', '+', None, ['MISSING']),
        (['--ocean', '-O'], 'Store', 'str', '+', None, ['MODEL']),
    ],
)

PROGRAMS['geocenter_processing_centers'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='geocenter_processing_centers', loop=(None, None),
    values={
        'grace_dir': ('path', '{cwd}'),
        'PROC': ['CSR', 'GFZ', 'GFZwPT', 'JPL'],
        'DREL': 'RL06',
        'START_MON': 4,
        'END_MON': 230,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 200, 201],
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['grace_dir']),
        (['--center', '-c'], 'Store', 'str', '+', None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START_MON']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END_MON']),
        (['--missing', '-M'], 'Store', 'int', '+', None, ['MISSING']),
    ],
)

PROGRAMS['gfz_icgem_costg_ftp'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='gfz_icgem_costg_ftp', loop=('MISSION', ['Grace', 'Grace-FO', 'Swarm']),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'MISSION': 'Grace',
        'RELEASE': 'RL01',
        'TIMEOUT': 360,
        'LOG': False,
        'LIST': False,
        'CLOBBER': False,
        'CHECKSUM': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--mission', '-m'], 'Store', 'str', '+', ['Grace', 'Grace-FO',
            'Swarm'], ['MISSION']),
        (['--release', '-r'], 'Store', 'str', None, ['RL01'], []),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--list', '-L'], 'StoreTrue', None, None, None, ['LIST']),
        (['--checksum'], 'StoreTrue', None, None, None, ['CHECKSUM']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['gfz_isdc_dealiasing_ftp'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='gfz_isdc_dealiasing_ftp', loop=('DREL', ['RL06']),
    values={
        'base_dir': ('path', '{cwd}'),
        'DREL': 'RL06',
        'YEAR': [2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009,
            2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017, 2018, 2019, 2020, 2021,
            2022],
        'MONTHS': [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12],
        'TAR': False,
        'TIMEOUT': 360,
        'LOG': False,
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--release', '-r'], 'Store', 'str', '+', ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--year', '-Y'], 'Store', 'int', '+', None, ['YEAR']),
        (['--month', '-m'], 'Store', 'int', '+', None, ['MONTHS']),
        (['--tar', '-T'], 'StoreTrue', None, None, None, ['TAR']),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['gfz_isdc_grace_ftp'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='gfz_isdc_grace_ftp', loop=(None, None),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'PROC': ['CSR', 'GFZ', 'JPL'],
        'DREL': ['RL06'],
        'VERSION': ['0', '1'],
        'NEWSLETTERS': False,
        'TIMEOUT': 360,
        'LOG': False,
        'LIST': False,
        'CLOBBER': False,
        'CHECKSUM': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--center', '-c'], 'Store', 'str', '+', ['CSR', 'GFZ', 'JPL'],
            ['PROC']),
        (['--release', '-r'], 'Store', 'str', '+', ['RL04', 'RL05', 'RL06'],
            ['DREL']),
        (['--version', '-v'], 'Store', 'str', 2, None, ['VERSION']),
        (['--newsletters', '-n'], 'StoreTrue', None, None, None,
            ['NEWSLETTERS']),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--list', '-L'], 'StoreTrue', None, None, None, ['LIST']),
        (['--checksum'], 'StoreTrue', None, None, None, ['CHECKSUM']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['grace_mean_harmonics'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='grace_mean_harmonics', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'MMAX': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['grace_raster_grids'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='grace_raster_grids', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'LMIN': 1,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DESTRIPE': False,
        'UNITS': 1,
        'BOUNDS': [-180.0, 180.0, -90.0, 90.0],
        'SPACING': 1.0,
        'PROJECTION': '4326',
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'REMOVE_FILES': None,
        'REMOVE_FORMAT': None,
        'REDISTRIBUTE_REMOVED': False,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3', '4', '5'],
            ['UNITS']),
        (['--spacing'], 'Store', 'float', '+', None, ['SPACING']),
        (['--bounds'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--projection'], 'Store', 'str', None, None, ['PROJECTION']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--remove-file'], 'Store', 'Path', '+', None, ['REMOVE_FILES']),
        (['--remove-format'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['REMOVE_FORMAT']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['grace_spatial_error'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='grace_spatial_error', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'LMIN': 1,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DESTRIPE': False,
        'UNITS': 1,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3', '4', '5'],
            ['UNITS']),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2', '3'], ['INTERVAL']),
        (['--bounds'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['grace_spatial_maps'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='grace_spatial_maps', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'LMIN': 1,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DESTRIPE': False,
        'UNITS': 1,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'REMOVE_FILES': None,
        'REMOVE_FORMAT': None,
        'REDISTRIBUTE_REMOVED': False,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3', '4', '5'],
            ['UNITS']),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2', '3'], ['INTERVAL']),
        (['--bounds'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--remove-file'], 'Store', 'Path', '+', None, ['REMOVE_FILES']),
        (['--remove-format'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['REMOVE_FORMAT']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['itsg_graz_grace_sync'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='itsg_graz_grace_sync', loop=('RELEASE', ['Grace2018', 'Grace_operational']),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'RELEASE': 'Grace2018',
        'LMAX': 60,
        'TIMEOUT': 360,
        'LOG': False,
        'LIST': False,
        'MODE': 509,
        'CLOBBER': False,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--release', '-r'], 'Store', 'str', '+', ['Grace2014', 'Grace2016',
            'Grace2018', 'Grace_operational'], ['RELEASE']),
        (['--lmax'], 'Store', 'int', None, ['60', '96', '120'], ['LMAX']),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--list', '-L'], 'StoreTrue', None, None, None, ['LIST']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['make_grace_index'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='make_grace_index', loop=(None, None),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'PROC': ['CSR', 'GFZ', 'JPL'],
        'DREL': ['RL06'],
        'DSET': ['GSM'],
        'VERSION': ['0', '1'],
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--center', '-c'], 'Store', 'str', '+', ['CSR', 'GFZ', 'JPL'],
            ['PROC']),
        (['--release', '-r'], 'Store', 'str', '+', None, ['DREL']),
        (['--product', '-p'], 'Store', 'str.upper', '+', ['GAA', 'GAB', 'GAC',
            'GAD', 'GSM'], ['DSET']),
        (['--version', '-v'], 'Store', 'str', 2, None, ['VERSION']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['mascon_reconstruct'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='mascon_reconstruct', loop=(None, None),
    values={
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MMAX': None,
        'DESTRIPE': False,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'DATAFORM': 'netCDF4',
        'MASCON_FILE': None,
        'REDISTRIBUTE_MASCONS': False,
        'RECONSTRUCT_FILE': None,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'MODE': 509,
    },
    options=[
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mascon-file'], 'Store', 'Path', None, None, ['MASCON_FILE']),
        (['--redistribute-mascons'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_MASCONS']),
        (['--reconstruct-file'], 'Store', 'Path', None, None,
            ['RECONSTRUCT_FILE']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['monte_carlo_degree_one'] = dict(
    required=['--center', 'xx'],
    files='@',
    exclusive=[],
    function='monte_carlo_degree_one', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'MMAX': None,
        'DESTRIPE': False,
        'RUNS': 10000,
        'LOVE_NUMBERS': 0,
        'LOVE_K1': 0.021,
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'ERROR_FILES': [],
        'SOLVER': 'lstsq',
        'FINGERPRINT': False,
        'EXPANSION': 240,
        'LANDMASK': ('path', '{package}/data/land_fcn_300km.nc'),
        'PLOT': False,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--runs'], 'Store', 'int', None, None, ['RUNS']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--kl', '-k'], 'Store', 'float', None, None, ['LOVE_K1']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--error-file'], 'Store', 'Path', '+', None, ['ERROR_FILES']),
        (['--solver', '-s'], 'Store', 'str', None, ['inv', 'lstsq', 'gelsd',
            'gelsy', 'gelss'], ['SOLVER']),
        (['--fingerprint'], 'StoreTrue', None, None, None, ['FINGERPRINT']),
        (['--expansion', '-e'], 'Store', 'int', None, None, ['EXPANSION']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--plot', '-p'], 'StoreTrue', None, None, None, ['PLOT']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['piecewise_grace_maps'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='piecewise_grace_maps', loop=(None, None),
    values={
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'BREAKPOINT': 129,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'MMAX': None,
        'DESTRIPE': False,
        'UNITS': 1,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'DATAFORM': 'netCDF4',
        'REDISTRIBUTE_REMOVED': False,
        'CYCLES': [0.5, 1.0, 0.4407939767282683],
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--breakpoint', '-B'], 'Store', 'int', None, None, ['BREAKPOINT']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3', '4', '5'],
            ['UNITS']),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2', '3'], ['INTERVAL']),
        (['--bounds'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--cycles'], 'Store', 'float', '+', None, ['CYCLES']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_GrIS_maps'] = dict(
    required=['xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 2, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 2, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_grid_3maps'] = dict(
    required=['xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 3, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 3, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_grid_4maps'] = dict(
    required=['xx', 'xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path',
            'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 4, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 4, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_grid_maps'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_grid_movie'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='animate_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'FILL_VALUE': -9999.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['DATAFORM']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_regional_maps'] = dict(
    required=['xx', '--region', 'ASE'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'REGION': 'ASE',
        'DATAFORM': 'netCDF4',
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--region', '-r'], 'Store', 'str', None, ['ASE', 'CpD', 'IIpp',
            'QML'], ['REGION']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_AIS_regional_movie'] = dict(
    required=['xx', '--region', 'ASE'],
    files='@',
    exclusive=[],
    function='animate_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'REGION': 'ASE',
        'DATAFORM': 'netCDF4',
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'FILL_VALUE': -9999.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--region', '-r'], 'Store', 'str', None, ['ASE', 'CpD', 'IIpp',
            'QML'], ['REGION']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['DATAFORM']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_GrIS_grid_3maps'] = dict(
    required=['xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'GLACIER_MARGINS': False,
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 3, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 3, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--glacier-margins'], 'StoreTrue', None, None, None,
            ['GLACIER_MARGINS']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_GrIS_grid_5maps'] = dict(
    required=['xx', 'xx', 'xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path',
            'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'GLACIER_MARGINS': False,
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 5, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 5, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--glacier-margins'], 'StoreTrue', None, None, None,
            ['GLACIER_MARGINS']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_GrIS_grid_maps'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'GLACIER_MARGINS': False,
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--glacier-margins'], 'StoreTrue', None, None, None,
            ['GLACIER_MARGINS']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_GrIS_grid_movie'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='animate_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'FILL_VALUE': -9999.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'GLACIER_MARGINS': False,
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['DATAFORM']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--glacier-margins'], 'StoreTrue', None, None, None,
            ['GLACIER_MARGINS']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_QML_grid_3maps'] = dict(
    required=['xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'BASEMAP': False,
        'BASIN_TYPE': '',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'DRAW_SCALE': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 3, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 3, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--basemap'], 'StoreTrue', None, None, None, ['BASEMAP']),
        (['--basin-type'], 'Store', 'str', None, None, ['BASIN_TYPE']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--draw-scale'], 'StoreTrue', None, None, None, ['DRAW_SCALE']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_3maps'] = dict(
    required=['xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 3, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 3, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_4maps'] = dict(
    required=['xx', 'xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path',
            'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 4, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 4, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_5maps'] = dict(
    required=['xx', 'xx', 'xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path',
            'xx'), ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 5, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 5, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_9maps'] = dict(
    required=['xx', 'xx', 'xx', 'xx', 'xx', 'xx', 'xx', 'xx', 'xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAMES': [('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path',
            'xx'), ('path', 'xx'), ('path', 'xx'), ('path', 'xx'), ('path', 'xx'),
            ('path', 'xx')],
        'DATAFORM': ['netCDF4'],
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'REMOVE_FILE': None,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLES': None,
        'LABELS': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:3.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', 9, None, ['TITLES']),
        (['--plot-label'], 'Store', 'str', 9, None, ['LABELS']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_maps'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='plot_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'VARIABLES': ['lon', 'lat', 'z'],
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:0.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'ADD_PROJECTION': False,
        'ADD_MINMAX': False,
        'FIGURE_FILE': None,
        'FIGURE_FORMAT': 'png',
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--variables', '-v'], 'Store', 'str', '+', None, ['VARIABLES']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--add-projection'], 'StoreTrue', None, None, None,
            ['ADD_PROJECTION']),
        (['--add-min-max'], 'StoreTrue', None, None, None, ['ADD_MINMAX']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], ['FIGURE_FORMAT']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['plot_global_grid_movie'] = dict(
    required=['xx'],
    files='@',
    exclusive=[],
    function='animate_grid', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'FILENAME': ('path', 'xx'),
        'DATAFORM': 'netCDF4',
        'MASK': None,
        'INTERPOLATION': 'bilinear',
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'SCALE_FACTOR': 1.0,
        'FILL_VALUE': -9999.0,
        'COLOR_MAP': 'viridis',
        'CPT_FILE': None,
        'PLOT_RANGE': None,
        'BOUNDARY': None,
        'ALPHA': 1.0,
        'CONTOURS': False,
        'CONTOUR_RANGE': None,
        'MEAN_CONTOUR': False,
        'TITLE': None,
        'LABEL': None,
        'CBEXTEND': 'both',
        'CBTITLE': '',
        'CBUNITS': '',
        'CBFORMAT': '{0:0.0f}',
        'DRAW_GRID_LINES': False,
        'GRID': [15, 15],
        'FIGURE_FILE': None,
        'FIGURE_DPI': 180,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['DATAFORM']),
        (['--mask'], 'Store', 'Path', None, None, []),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--interpolation', '-I'], 'Store', 'str', None, ['nearest',
            'bilinear', 'cubic'], ['INTERPOLATION']),
        (['--scale-factor', '-s'], 'Store', 'float', None, None,
            ['SCALE_FACTOR']),
        (['--plot-range', '-R'], 'Store', 'float', 3, None, ['PLOT_RANGE']),
        (['--boundary', '-B'], 'Store', 'float', '+', None, ['BOUNDARY']),
        (['--colormap', '-m'], 'Store', 'str', None, ['Accent', 'Blues', 'BrBG',
            'BuGn', 'BuPu', 'CMRmap', 'Dark2', 'GnBu', 'Greens', 'Greys', 'OrRd',
            'Oranges', 'PRGn', 'Paired', 'Pastel1', 'Pastel2', 'PiYG', 'PuBu',
            'PuBuGn', 'PuOr', 'PuRd', 'Purples', 'RdBu', 'RdGy', 'RdPu', 'RdYlBu',
            'RdYlGn', 'Reds', 'Set1', 'Set2', 'Set3', 'Spectral', 'Wistia', 'YlGn',
            'YlGnBu', 'YlOrBr', 'YlOrRd', 'afmhot', 'autumn', 'berlin', 'binary',
            'bone', 'brg', 'bwr', 'cividis', 'cool', 'coolwarm', 'copper',
            'cubehelix', 'flag', 'gist_earth', 'gist_gray', 'gist_heat',
            'gist_ncar', 'gist_rainbow', 'gist_stern', 'gist_yarg', 'gnuplot',
            'gnuplot2', 'gray', 'hot', 'hsv', 'inferno', 'jet', 'magma', 'managua',
            'nipy_spectral', 'ocean', 'okabe_ito', 'pink', 'plasma', 'prism',
            'rainbow', 'seismic', 'spring', 'summer', 'tab10', 'tab20', 'tab20b',
            'tab20c', 'terrain', 'turbo', 'twilight', 'twilight_shifted', 'vanimo',
            'viridis', 'winter'], ['COLOR_MAP']),
        (['--cpt-file', '-c'], 'Store', 'Path', None, None, ['CPT_FILE']),
        (['--alpha', '-a'], 'Store', 'float', None, None, ['ALPHA']),
        (['--plot-contours'], 'StoreTrue', None, None, None, ['CONTOURS']),
        (['--contour-range'], 'Store', 'float', 3, None, ['CONTOUR_RANGE']),
        (['--mean-contour'], 'StoreTrue', None, None, None, ['MEAN_CONTOUR']),
        (['--plot-title'], 'Store', 'str', None, None, ['TITLE']),
        (['--plot-label'], 'Store', 'str', None, None, ['LABEL']),
        (['--cbextend'], 'Store', 'str', None, ['neither', 'both', 'min',
            'max'], ['CBEXTEND']),
        (['--cbtitle'], 'Store', 'str', None, None, ['CBTITLE']),
        (['--cbunits'], 'Store', 'str', None, None, ['CBUNITS']),
        (['--cbformat'], 'Store', 'str', None, None, ['CBFORMAT']),
        (['--draw-grid-lines'], 'StoreTrue', None, None, None,
            ['DRAW_GRID_LINES']),
        (['--grid-lines'], 'Store', 'float', '+', None, ['GRID']),
        (['--figure-file', '-O'], 'Store', 'Path', None, None, ['FIGURE_FILE']),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, ['FIGURE_DPI']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['podaac_cumulus'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='podaac_cumulus', loop=(None, None),
    values={
        'DIRECTORY': ('path', '{cwd}'),
        'PROC': ['CSR', 'GFZ', 'JPL'],
        'DREL': ['RL06'],
        'VERSION': ['0', '3'],
        'AOD1B': False,
        'ENDPOINT': 's3',
        'TIMEOUT': 360,
        'GZIP': False,
        'LOG': False,
        'CLOBBER': False,
        'MODE': 509,
    },
    options=[
        (['--user', '-U'], 'Store', 'str', None, None, []),
        (['--password', '-W'], 'Store', 'str', None, None, []),
        (['--netrc', '-N'], 'Store', 'Path', None, None, []),
        (['--directory', '-D'], 'Store', 'Path', None, None, ['DIRECTORY']),
        (['--center', '-c'], 'Store', 'str', '+', ['CSR', 'GFZ', 'JPL'],
            ['PROC']),
        (['--release', '-r'], 'Store', 'str', '+', None, ['DREL']),
        (['--version', '-v'], 'Store', 'str', 2, None, ['VERSION']),
        (['--aod1b', '-a'], 'StoreTrue', None, None, None, ['AOD1B']),
        (['--endpoint', '-e'], 'Store', 'str', None, ['s3', 'data'],
            ['ENDPOINT']),
        (['--timeout', '-t'], 'Store', 'int', None, None, ['TIMEOUT']),
        (['--gzip', '-G'], 'StoreTrue', None, None, None, ['GZIP']),
        (['--log', '-l'], 'StoreTrue', None, None, None, ['LOG']),
        (['--clobber', '-C'], 'StoreTrue', None, None, None, ['CLOBBER']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['quick_mascon_plot'] = dict(
    required=['xx'],
    files=None,
    exclusive=[],
    function='run_plot', loop=(None, None),
    values={
        'i': 0,
        'input_file': ('path', 'xx'),
        'individual': False,
        'header': 0,
        'marker': None,
        'zorder': None,
        'title': None,
        'time': 'Time [Yr]',
        'units': 'Mass [Gt]',
        'legend': None,
        'error': False,
        'monthly': True,
    },
    options=[
        (['--individual', '-I'], 'StoreTrue', None, None, None, ['individual']),
        (['--output-file', '-O'], 'Store', 'Path', None, None, []),
        (['--figure-format', '-f'], 'Store', 'str', None, ['pdf', 'png', 'jpg',
            'svg'], []),
        (['--figure-dpi', '-d'], 'Store', 'int', None, None, []),
        (['--header', '-H'], 'Store', 'int', None, None, ['header']),
        (['--marker', '-m'], 'Store', 'str', None, None, ['marker']),
        (['--zorder', '-z'], 'Store', 'int', 'each', None, ['zorder']),
        (['--title', '-t'], 'Store', 'spaces', None, None, ['title']),
        (['--time', '-T'], 'Store', 'str', None, None, ['time']),
        (['--units', '-U'], 'Store', 'str', None, None, ['units']),
        (['--legend', '-L'], 'Store', 'str', 'each', None, ['legend']),
        (['--error', '-E'], 'StoreTrue', None, None, None, ['error']),
        (['--all', '-A'], 'StoreFalse', None, None, None, ['monthly']),
        (['--mode', '-M'], 'Store', 'octal', None, None, []),
    ],
)

PROGRAMS['quick_mascon_regress'] = dict(
    required=['xx', '--order', '1'],
    files=None,
    exclusive=[['--order', '--breakpoint']],
    function='run_regress', loop=(None, None),
    values={
        'input_file': ('path', 'xx'),
        'header': 0,
        'order': 1,
        'breakpoint': None,
        'cycles': [0.5, 1.0, 0.4407939767282683],
        'units': 'Gt',
        'stream': False,
    },
    options=[
        (['--header', '-H'], 'Store', 'int', None, None, ['header']),
        (['--order'], 'Store', 'int', None, None, ['order']),
        (['--breakpoint'], 'Store', 'int', None, None, ['breakpoint']),
        (['--cycles'], 'Store', 'float', '+', None, ['cycles']),
        (['--units', '-U'], 'Store', 'str', None, None, ['units']),
        (['--stream', '-S'], 'StoreTrue', None, None, None, ['stream']),
    ],
)

PROGRAMS['regress_grace_maps'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='regress_grace_maps', loop=(None, None),
    values={
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'MMAX': None,
        'DESTRIPE': False,
        'UNITS': 1,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'BOUNDS': None,
        'DATAFORM': 'netCDF4',
        'REDISTRIBUTE_REMOVED': False,
        'ORDER': 2,
        'CYCLES': [0.5, 1.0, 0.4407939767282683],
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--units', '-U'], 'Store', 'int', None, ['1', '2', '3', '4', '5'],
            ['UNITS']),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2', '3'], ['INTERVAL']),
        (['--bounds'], 'Store', 'float', 4, None, ['BOUNDS']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--order'], 'Store', 'int', None, None, ['ORDER']),
        (['--cycles'], 'Store', 'float', '+', None, ['CYCLES']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['run_grace_date'] = dict(
    required=[],
    files=None,
    exclusive=[],
    function='run_grace_date', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': ['CSR', 'GFZ', 'JPL'],
        'DREL': ['RL06', 'v02.4'],
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--center', '-c'], 'Store', 'str', '+', ['CSR', 'GFZ', 'JPL'],
            ['PROC']),
        (['--release', '-r'], 'Store', 'str', '+', None, ['DREL']),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['run_sea_level_equation'] = dict(
    required=[],
    files='@',
    exclusive=[],
    function='run_sea_level_equation', loop=(None, None),
    values={
        'INPUT_FILE': None,
        'OUTPUT_FILE': None,
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'LMAX': 240,
        'LOVE_NUMBERS': 0,
        'BODY_TIDE_LOVE': 0,
        'FLUID_LOVE': 0,
        'REFERENCE': 'CF',
        'ITERATIONS': 6,
        'POLAR': False,
        'DATAFORM': 'netCDF4',
        'DATE': False,
        'MODE': 509,
    },
    options=[
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--body', '-b'], 'Store', 'int', None, ['0', '1'],
            ['BODY_TIDE_LOVE']),
        (['--fluid', '-f'], 'Store', 'int', None, ['0', '1', '2', '3'],
            ['FLUID_LOVE']),
        (['--iterations', '-I'], 'Store', 'int', None, None, ['ITERATIONS']),
        (['--polar-feedback'], 'StoreTrue', None, None, None, ['POLAR']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--date', '-D'], 'StoreTrue', None, None, None, ['DATE']),
        (['--verbose', '-V'], 'Count', None, None, None, []),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)

PROGRAMS['scale_grace_maps'] = dict(
    required=['--center', 'xx', '--scale-file', 'xx'],
    files='@',
    exclusive=[],
    function='scale_grace_maps', loop=(None, None),
    values={
        'base_dir': ('path', '{cwd}'),
        'PROC': 'xx',
        'DREL': 'RL06',
        'DSET': 'GSM',
        'LMAX': 60,
        'RAD': 0,
        'START': 4,
        'END': 232,
        'MISSING': [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156,
            162, 166, 167, 172, 177, 178, 182, 187, 188, 189, 190, 191, 192, 193,
            194, 195, 196, 197, 200, 201],
        'LMIN': 1,
        'MMAX': None,
        'LOVE_NUMBERS': 0,
        'REFERENCE': 'CF',
        'DESTRIPE': False,
        'DDEG': [0.5, 0.5],
        'INTERVAL': 2,
        'GIA': None,
        'GIA_FILE': None,
        'ATM': False,
        'POLE_TIDE': False,
        'DEG1': None,
        'DEG1_FILE': None,
        'MODEL_DEG1': False,
        'SLR_C20': None,
        'SLR_21': None,
        'SLR_22': None,
        'SLR_C30': None,
        'SLR_C40': None,
        'SLR_C50': None,
        'DATAFORM': 'netCDF4',
        'MEAN_FILE': None,
        'MEANFORM': 'netCDF4',
        'REMOVE_FILES': None,
        'REMOVE_FORMAT': None,
        'REDISTRIBUTE_REMOVED': False,
        'SCALE_FILE': ('path', 'xx'),
        'LANDMASK': ('path', '{package}/data/landsea_hd.nc'),
        'OUTPUT_DIRECTORY': ('path', '{cwd}'),
        'FILE_PREFIX': None,
        'VERBOSE': 0,
        'MODE': 509,
    },
    options=[
        (['--directory', '-D'], 'Store', 'Path', None, None, ['base_dir']),
        (['--output-directory', '-O'], 'Store', 'Path', None, None,
            ['OUTPUT_DIRECTORY']),
        (['--file-prefix', '-P'], 'Store', 'str', None, None, ['FILE_PREFIX']),
        (['--center', '-c'], 'Store', 'str', None, None, ['PROC']),
        (['--release', '-r'], 'Store', 'str', None, None, ['DREL']),
        (['--product', '-p'], 'Store', 'str', None, None, ['DSET']),
        (['--lmin'], 'Store', 'int', None, None, ['LMIN']),
        (['--lmax', '-l'], 'Store', 'int', None, None, ['LMAX']),
        (['--mmax', '-m'], 'Store', 'int', None, None, ['MMAX']),
        (['--start', '-S'], 'Store', 'int', None, None, ['START']),
        (['--end', '-E'], 'Store', 'int', None, None, ['END']),
        (['--missing', '-N'], 'Store', 'int', '+', None, ['MISSING']),
        (['--love', '-n'], 'Store', 'int', None, ['0', '1', '2', '3', '4'],
            ['LOVE_NUMBERS']),
        (['--reference'], 'Store', 'str.upper', None, ['CF', 'CM', 'CE'],
            ['REFERENCE']),
        (['--radius', '-R'], 'Store', 'float', None, None, ['RAD']),
        (['--destripe', '-d'], 'StoreTrue', None, None, None, ['DESTRIPE']),
        (['--spacing'], 'Store', 'float', '+', None, ['DDEG']),
        (['--interval'], 'Store', 'int', None, ['1', '2'], ['INTERVAL']),
        (['--gia', '-G'], 'Store', 'str', None, ['IJ05-R2', 'W12a', 'SM09',
            'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii',
            'netCDF4', 'HDF5'], ['GIA']),
        (['--gia-file'], 'Store', 'Path', None, None, ['GIA_FILE']),
        (['--atm-correction'], 'StoreTrue', None, None, None, ['ATM']),
        (['--pole-tide'], 'StoreTrue', None, None, None, ['POLE_TIDE']),
        (['--geocenter'], 'Store', 'str', None, ['Tellus', 'SLR', 'SLF', 'UCI',
            'Swenson', 'GFZ'], ['DEG1']),
        (['--geocenter-file'], 'Store', 'Path', None, None, ['DEG1_FILE']),
        (['--interpolate-geocenter'], 'StoreTrue', None, None, None,
            ['MODEL_DEG1']),
        (['--slr-c20'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_C20']),
        (['--slr-21'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC'],
            ['SLR_21']),
        (['--slr-22'], 'Store', 'str', None, ['CSR', 'GSFC'], ['SLR_22']),
        (['--slr-c30'], 'Store', 'str', None, ['CSR', 'GFZ', 'GSFC', 'LARES'],
            ['SLR_C30']),
        (['--slr-c40'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C40']),
        (['--slr-c50'], 'Store', 'str', None, ['CSR', 'GSFC', 'LARES'],
            ['SLR_C50']),
        (['--format', '-F'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5'],
            ['DATAFORM']),
        (['--mean-file'], 'Store', 'Path', None, None, ['MEAN_FILE']),
        (['--mean-format'], 'Store', 'str', None, ['ascii', 'netCDF4', 'HDF5',
            'gfc'], ['MEANFORM']),
        (['--remove-file'], 'Store', 'Path', '+', None, ['REMOVE_FILES']),
        (['--remove-format'], 'Store', 'str', '+', ['ascii', 'netCDF4', 'HDF5',
            'index-ascii', 'index-netCDF4', 'index-HDF5'], ['REMOVE_FORMAT']),
        (['--redistribute-removed'], 'StoreTrue', None, None, None,
            ['REDISTRIBUTE_REMOVED']),
        (['--scale-file'], 'Store', 'Path', None, None, ['SCALE_FILE']),
        (['--mask'], 'Store', 'Path', None, None, ['LANDMASK']),
        (['--log'], 'StoreTrue', None, None, None, []),
        (['--verbose', '-V'], 'Count', None, None, None, ['VERBOSE']),
        (['--mode', '-M'], 'Store', 'octal', None, None, ['MODE']),
    ],
)
