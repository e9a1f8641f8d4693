"""documented values of options that are left out"""
import numpy as np

DEFAULTS = {
    'grace_date': {'PROC': '', 'DREL': '', 'DSET': '', 'OUTPUT': True, 'MODE': 509},
    'grace_find_months': {'DSET': 'GSM'},
    'associated_legendre': {'method': 'holmes', 'MMAX': None, 'astype': np.float64},
    'plm_colombo': {'MMAX': None, 'astype': np.float64},
    'plm_holmes': {'MMAX': None, 'astype': np.float64},
    'plm_mohlenkamp': {'MMAX': None, 'astype': np.float64},
    'gauss_weights': {'CUTOFF': 1e-10},
    'clenshaw_summation': {'RAD': 0, 'UNITS': 0, 'LMAX': 0, 'LOVE': None, 'ASTYPE': np.longdouble, 'SCALE': 1e-280},
    'degree_amplitude': {'LMAX': None, 'MMAX': None},
    'destripe_harmonics': {'LMIN': 2, 'LMAX': 60, 'MMAX': None, 'ROUND': True},
    'gen_averaging_kernel': {'LMAX': 60, 'MMAX': None, 'CUTOFF': 1e-15, 'UNITS': 0, 'LOVE': None},
    'read_gfc_harmonics': {'FLAG': 'gfc'},
    'read_GRACE_harmonics': {'MMAX': None, 'POLE_TIDE': False},
    'legendre_polynomials': {'ASTYPE': np.float64},
    'gen_disc_load': {'LMAX': 60, 'MMAX': None, 'UNITS': 2, 'PLM': None, 'LOVE': None},
    'gen_harmonics': {'LMAX': 60, 'MMAX': None, 'PLM': 0, 'METHOD': 'integration'},
    'legendre': {'NORMALIZE': False},
    'gen_point_load': {'LMAX': 60, 'MMAX': None, 'UNITS': 1, 'LOVE': None},
    'gen_spherical_cap': {'LMAX': 60, 'MMAX': None, 'AREA': 0, 'UNITS': 1, 'LOVE': None},
    'gen_stokes': {'LMIN': 0, 'LMAX': 60, 'MMAX': None, 'UNITS': 1, 'PLM': None, 'LOVE': None},
    'grace_input_months': {'MMAX': None, 'SLR_21': '', 'SLR_22': '', 'SLR_C30': '', 'SLR_C40': '', 'SLR_C50': '', 'POLE_TIDE': False, 'ATM': False, 'DEG1_FILE': None, 'MODEL_DEG1': False},
    'read_ecmwf_corrections': {'MMAX': None},
    'grace_months_index': {'MODE': None},
    'harmonic_gradients': {'LMIN': 0, 'LMAX': 60, 'MMAX': None},
    'geostrophic_currents': {'LMIN': 0, 'MMAX': None, 'RAD': 0.0, 'DENSITY': 1.035, 'LOVE': None, 'PLM': None},
    'harmonic_summation': {'LMIN': 0, 'LMAX': 60, 'MMAX': None, 'PLM': None},
    'harmonic_transform': {'LMIN': 0, 'LMAX': 60, 'MMAX': None, 'PLM': None},
    'stokes_summation': {'LMIN': 0, 'MMAX': None, 'RAD': 0.0, 'UNITS': 0, 'LOVE': None, 'PLM': None},
    'ocean_stokes': {'MMAX': None, 'VARNAME': 'LSMASK', 'SIMPLIFY': False},
    'land_stokes': {'MMAX': None, 'VARNAME': 'LSMASK', 'SIMPLIFY': False},
    'read_GIA_model': {'GIA': None, 'MMAX': None, 'DATAFORM': None, 'MODE': 509},
    'read_love_numbers': {'LMAX': None, 'HEADER': 2, 'REFERENCE': 'CE', 'FORMAT': 'tuple'},
    'load_love_numbers': {'LOVE_NUMBERS': 0, 'FORMAT': 'tuple'},
    'convert_weekly': {'DATE': [], 'NEIGHBORS': 28},
    'sea_level_equation': {'LMAX': 0, 'LOVE': None, 'BODY_TIDE_LOVE': 0, 'FLUID_LOVE': 0, 'POLAR': True, 'ITERATIONS': 6, 'PLM': None, 'FILL_VALUE': 0, 'ASTYPE': np.longdouble, 'SCALE': 1e-280},
    'calendar_to_grace': {'month': 1, 'around': np.floor},
    'convert_datetime': {'epoch': (1970, 1, 1, 0, 0, 0)},
    'convert_delta_time': {'epoch1': None, 'epoch2': None, 'scale': 1.0},
    'convert_calendar_dates': {'hour': 0.0, 'minute': 0.0, 'second': 0.0, 'epoch': (1992, 1, 1, 0, 0, 0), 'scale': 1.0},
    'convert_calendar_decimal': {'day': None, 'hour': None, 'minute': None, 'second': None, 'DofY': None},
    'convert_julian': {'astype': None, 'format': 'dict'},
    'lomb_scargle': {'NORMALIZE': False, 'OMEGA': [], 'FREQUENCY': [], 'PERIOD': [], 'N': 1000, 'p': [0.05, 0.01, 0.001, 0.0001, 1e-05, 1e-06]},
    'piecewise': {'BREAK_TIME': None, 'BREAKPOINT': None, 'CYCLES': [0.5, 1.0], 'TERMS': [], 'WEIGHT': False, 'STDEV': 0, 'CONF': 0, 'AICc': False},
    'regress': {'ORDER': 1, 'CYCLES': [0.5, 1.0], 'TERMS': [], 'WEIGHT': False, 'RELATIVE': Ellipsis, 'STDEV': 0, 'CONF': 0},
    'savitzky_golay': {'WINDOW': None, 'ORDER': 2, 'DERIV': 0, 'RATE': 1, 'DATA_ERR': 0},
    'smooth': {'MOVING': False, 'STDEV': 0, 'CONF': 0},
    'from_cpt': {'use_extremes': True},
    'shift_grid': {'CYCLIC': 360.0},
    'interp_grid': {'order': 0},
    'mask_oceans': {'order': 0, 'lakes': False, 'iceshelves': True, 'resolution': 'qd'},
    'C20': {'AOD': True, 'HEADER': True},
    'C30': {'C30_MEAN': 9.57173957733e-07, 'HEADER': True},
    'C40': {'C40_MEAN': 0.0, 'DATE': None},
    'C50': {'C50_MEAN': 0.0, 'DATE': None, 'HEADER': True},
    'CS2': {'ORDER': 1, 'DATE': None, 'HEADER': True},
    'from_jpl': {'transpose': False},
    'get_hash': {'algorithm': 'md5'},
    'get_unix_time': {'format': '%Y-%m-%d %H:%M:%S'},
    'cmr_product_shortname': {'level': 'L2', 'version': '0', 'product': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']},
    'cmr_readable_granules': {'level': 'L2', 'solution': 'BA01', 'version': '0'},
    'cmr_filter_json': {'endpoint': 'data'},
    'compile_regex_pattern': {'mission': None, 'solution': 'BA01'},
    'harmonics.compressuser': {'filename': None},
    'harmonics.from_ascii': {'date': True, 'compression': None, 'verbose': False},
    'harmonics.from_netCDF4': {'date': True, 'compression': None, 'verbose': False},
    'harmonics.from_HDF5': {'date': True, 'compression': None, 'verbose': False},
    'harmonics.from_gfc': {'tide': None, 'verbose': False},
    'harmonics.from_SHM': {'MMAX': None, 'POLE_TIDE': False, 'verbose': False},
    'harmonics.from_index': {'format': None, 'date': True, 'sort': True},
    'harmonics.from_list': {'date': True, 'sort': True, 'clear': True},
    'harmonics.from_file': {'format': None, 'date': True, 'verbose': False},
    'harmonics.to_ascii': {'date': True, 'verbose': False},
    'harmonics.to_netCDF4': {'units': 'Geodesy_Normalization', 'time_units': 'years', 'time_longname': 'Date_in_Decimal_Years', 'months_name': 'month', 'months_units': 'number', 'months_longname': 'GRACE_month', 'field_mapping': {}, 'title': None, 'source': None, 'reference': None, 'date': True, 'clobber': True, 'verbose': False},
    'harmonics.to_HDF5': {'units': 'Geodesy_Normalization', 'time_units': 'years', 'time_longname': 'Date_in_Decimal_Years', 'months_name': 'month', 'months_units': 'number', 'months_longname': 'GRACE_month', 'field_mapping': {}, 'title': None, 'source': None, 'reference': None, 'date': True, 'clobber': True, 'verbose': False},
    'harmonics.to_index': {'format': None, 'date': True, 'verbose': False},
    'harmonics.to_file': {'format': None, 'date': True, 'verbose': False},
    'harmonics.expand_dims': {'update_dimensions': True},
    'harmonics.squeeze': {'update_dimensions': True},
    'harmonics.flatten': {'date': True},
    'harmonics.expand': {'date': True},
    'harmonics.index': {'date': True},
    'harmonics.truncate': {'lmin': 0, 'mmax': None},
    'harmonics.mean': {'apply': False, 'indices': Ellipsis},
    'spatial.compressuser': {'filename': None},
    'spatial.from_ascii': {'date': True, 'compression': None, 'spacing': [None, None], 'extent': [None, None, None, None], 'nlat': None, 'nlon': None, 'columns': ['lon', 'lat', 'data', 'time'], 'header': 0, 'verbose': False},
    'spatial.from_netCDF4': {'date': True, 'compression': None, 'lonname': 'lon', 'latname': 'lat', 'timename': 'time', 'field_mapping': {}, 'verbose': False},
    'spatial.from_HDF5': {'date': True, 'compression': None, 'lonname': 'lon', 'latname': 'lat', 'timename': 'time', 'field_mapping': {}, 'verbose': False},
    'spatial.from_index': {'format': None, 'date': True, 'sort': True},
    'spatial.from_list': {'date': True, 'sort': True, 'clear': True},
    'spatial.from_file': {'format': None, 'date': True, 'verbose': False},
    'spatial.to_ascii': {'date': True, 'verbose': False},
    'spatial.to_netCDF4': {'varname': 'z', 'field_mapping': {}, 'units': None, 'longname': None, 'time_units': 'years', 'time_longname': 'Date_in_Decimal_Years', 'title': None, 'source': None, 'reference': None, 'date': True, 'clobber': True, 'verbose': False},
    'spatial.to_HDF5': {'varname': 'z', 'field_mapping': {}, 'units': None, 'longname': None, 'time_units': 'years', 'time_longname': 'Date_in_Decimal_Years', 'title': None, 'source': None, 'reference': None, 'date': True, 'clobber': True, 'verbose': False},
    'spatial.to_index': {'format': None, 'date': True, 'verbose': False},
    'spatial.to_file': {'format': None, 'date': True, 'verbose': False},
    'spatial.index': {'date': True},
    'spatial.mean': {'apply': False, 'indices': Ellipsis},
    'spatial.flip': {'axis': 0},
    'spatial.sum': {'power': 1},
    'spatial.replace_invalid': {'mask': None},
    'geocenter.from_AOD1B': {'product': 'glo'},
    'geocenter.from_gravis': {'header': True},
    'geocenter.from_SLR': {'AOD': False, 'release': None, 'header': 0, 'columns': []},
    'geocenter.from_swenson': {'header': True},
    'geocenter.from_tellus': {'header': True, 'JPL': True},
    'geocenter.from_netCDF4': {'group': None, 'compression': None},
    'geocenter.mean': {'apply': False, 'indices': Ellipsis},
    'scaling_factors.from_ascii': {'compression': None, 'spacing': [None, None], 'extent': [None, None, None, None], 'nlat': None, 'nlon': None, 'columns': ['lon', 'lat', 'kfactor', 'error', 'magnitude'], 'header': 0, 'verbose': False},
    'scaling_factors.to_ascii': {'verbose': False},
    'units.harmonic': {'include_elastic': True, 'include_ellipsoidal': False},
    'units.spatial': {'include_elastic': True},
    'gia.from_GIA': {'GIA': None, 'mmax': None, 'verbose': False},
}
