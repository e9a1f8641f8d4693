"""Stand-in for the optional dependency geoid_toolkit (not installed here):
reads ICGEM text files the way geoid_toolkit.read_ICGEM_harmonics documents,
and the functions of geoid_toolkit.spatial for raster files."""
import io
import pathlib
import re
import zipfile
import numpy as np


def read_ICGEM_harmonics(model_file, **kwargs):
    tide, flag = kwargs.get('TIDE'), kwargs.get('FLAG', 'gfc')
    model_file = pathlib.Path(model_file)
    if kwargs.get('ZIP'):
        with zipfile.ZipFile(model_file) as z:
            name, = [n for n in z.namelist() if n.lower().endswith('.gfc')]
            text = z.read(name).decode('latin-1')
    else:
        text = model_file.read_text(encoding='latin-1')
    out, rows = {}, []
    keys = ('modelname', 'earth_gravity_constant', 'radius', 'max_degree',
        'errors', 'norm', 'tide_system')
    for line in text.splitlines():
        w = line.split()
        if w and w[0] in keys:
            out[w[0]] = w[1]
        elif w and re.match(flag, w[0]):
            rows.append([float(x) for x in w[1:]])
    L = int(out['max_degree'])
    for k, key in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        out[key] = np.zeros((L+1, L+1))
        for r in rows:
            if len(r) > 2+k:
                out[key][int(r[0]), int(r[1])] = r[2+k]
    if tide and tide != out.get('tide_system'):
        # marks the conversion so that the request can be observed
        out['clm'][2, 0] += {'tide_free': 4.2e-9}.get(tide, 1e-9)
        out['tide_system'] = tide
    return out


class spatial:
    """the functions of geoid_toolkit.spatial that are used, as documented:
    outputs are kept as they were given"""
    written = {}

    @staticmethod
    def geocentric_latitude(lon, lat, a_axis=6378137.0, flat=1.0/298.257223563):
        # latitude of the direction from the center of the ellipsoid
        phi = np.radians(np.asarray(lat, dtype=float))
        return np.degrees(np.arctan2((1.0-flat)**2*np.sin(phi), np.cos(phi)))

    @staticmethod
    def _write(kind, output, attributes, filename, **kwargs):
        keep = {k: (np.ma.copy(v), np.array(np.ma.getmaskarray(v)))
            for k, v in output.items()}
        pathlib.Path(filename).write_text(kind)
        spatial.written[str(filename)] = (kind, keep, attributes, kwargs)

    @staticmethod
    def to_netCDF4(output, attributes, filename, **kwargs):
        spatial._write('netCDF4', output, attributes, filename, **kwargs)

    @staticmethod
    def to_HDF5(output, attributes, filename, **kwargs):
        spatial._write('HDF5', output, attributes, filename, **kwargs)
