"""R02: reading ICGEM (gfc) harmonics of ITSG and Swarm."""
import calendar
import datetime
import os
import pathlib
import zipfile
import numpy as np
import gravity_toolkit as g
from rv.core import Check

check = Check('R02', 'each case writes an ITSG or Swarm coefficient file with '
    'a documented name and compares coefficients, dates and months of the '
    'readers with what was written', ['the optional geoid_toolkit is replaced '
    'by a stand-in that reads the ICGEM text format'])

ITSG = ('atmosphere', 'dealiasing', 'oceanBottomPressure', 'ocean',
    'Grace2014', 'Grace2016', 'Grace2018', 'Grace_operational')


class Model:
    def __init__(self, c, kind):
        self.L = L = c.int(2, 10)
        y, m = c.int(2002, 2024), c.int(1, 12)
        n = calendar.monthrange(y, m)[1]
        self.start = datetime.datetime(y, m, 1)
        self.end = datetime.datetime(y, m, n, 23, 59, 59)
        self.zip = False
        if kind == 'itsg':
            prd = c.pick(*ITSG)
            pre = 'ITSG-' if prd.startswith('Grace') else \
                c.pick('model_', 'AOD1B_RL06_')
            trunc = c.pick('', '_n60', '_n96') if pre != 'model_' else ''
            self.name = f'{pre}{prd}{trunc}_{y}-{m:02d}.gfc'
            self.proc, self.dset = 'GRAZ', 'GSM'
        elif kind == 'swarm':
            self.zip = c.chance(.4)
            if c.chance(.5):
                # weekly and other spans, across years
                self.start += datetime.timedelta(days=c.int(0, 30),
                    hours=c.int(0, 23), minutes=c.int(0, 59), seconds=c.int(0, 59))
                self.end = self.start + datetime.timedelta(days=c.int(1, 60),
                    hours=c.int(0, 23), minutes=c.int(0, 59))
            self.name = (f'SW_OPER_EGF_SHA_2__{self.start:%Y%m%dT%H%M%S}_'
                f'{self.end:%Y%m%dT%H%M%S}_0101.{"ZIP" if self.zip else "gfc"}')
            self.proc, self.dset = 'Swarm', 'GSM'
        else:
            d = c.pick('GAA', 'GAB', 'GAC', 'GAD')
            self.name = f'{d}_Swarm_{c.pick(40, 60)}_{m:02d}_{y}.gfc'
            self.proc, self.dset = 'Swarm', d
        self.c = np.tril(c.rng.standard_normal((L+1, L+1)))*1e-6
        self.s = np.tril(c.rng.standard_normal((L+1, L+1)), -1)
        self.s[:, 0] = 0
        lines = ['product_type gravity_field', 'modelname x',
            'earth_gravity_constant 3.9860044150e+14', 'radius 6378136.3',
            f'max_degree {L}', 'errors no', 'norm fully_normalized',
            'tide_system zero_tide', 'end_of_head ====']
        for l in range(L+1):
            for m in range(l+1):
                lines.append(f'gfc {l:5d} {m:5d} {float(self.c[l, m])!r} '
                    f'{float(self.s[l, m])!r}')
        self.text = '\n'.join(lines)+'\n'

    def write(self, folder):
        path = os.path.join(folder, self.name)
        if self.zip:
            with zipfile.ZipFile(path, 'w') as z:
                z.writestr(self.name.replace('.ZIP', '.gfc'), self.text)
        else:
            with open(path, 'w') as f:
                f.write(self.text)
        return path

    @property
    def time(self):
        y = self.start.year
        n = 366 if calendar.isleap(y) else 365

        def doy(d):
            return 1+(d-datetime.datetime(y, 1, 1)).total_seconds()/86400
        # the part of a span in the next year is counted from its first day
        end = (self.end-datetime.datetime(self.end.year, 1, 1)
            ).total_seconds()/86400 + 1 + (self.end.year-y)*n
        return y + .5*(doy(self.start)+end)/n


def julian(d):
    return d.toordinal() + 1721424.5 + (d-datetime.datetime(d.year, d.month,
        d.day)).total_seconds()/86400


@check.section('read', quick=90, thorough=900)
def read(c):
    p = Model(c, c.cycle('itsg', 'swarm', 'gax'))
    path = p.write(c.scratch())
    tide = c.pick(None, 'tide_free')
    c.note(name=p.name, tide=tide)
    r = g.read_gfc_harmonics(path if c.chance(.5) else pathlib.Path(path),
        TIDE=tide)
    want = p.c.copy()
    if tide:
        want[2, 0] += 4.2e-9
    c.close(r['clm'], want, 'clm', rtol=0)
    c.close(r['slm'], p.s, 'slm', rtol=0)
    c.close(r['time'], p.time, 'time', rtol=0, atol=1e-8)
    c.close(r['start'], julian(p.start), 'start', rtol=0, atol=1e-6)
    c.close(r['end'], julian(p.end), 'end', rtol=0, atol=1e-6)


@check.section('object', quick=60, thorough=600)
def obj(c):
    p = Model(c, c.cycle('itsg', 'swarm', 'gax'))
    path = p.write(c.scratch())
    tide = c.pick(None, 'tide_free')
    date = p.zip or c.chance(.7)
    c.note(name=p.name, tide=tide, date=date)
    # files are read as static fields by from_file
    how = 'gfc' if date else c.pick('gfc', 'file')
    if how == 'gfc':
        h = g.harmonics().from_gfc(path, date=date, tide=tide)
    else:
        h = g.harmonics().from_file(path, format='gfc', tide=tide)
    want = p.c.copy()
    if tide:
        want[2, 0] += 4.2e-9
    c.close(h.clm, want, 'clm', rtol=0)
    c.close(h.slm, p.s, 'slm', rtol=0)
    c.eq((int(h.lmax), int(h.mmax)), (p.L, p.L), 'limits')
    c.eq(float(h.GM), 3.986004415e14, 'GM')
    c.eq(float(h.R), 6378136.3, 'R')
    c.eq(h.tide, tide or 'zero_tide', 'tide')
    if date:
        c.close(h.time, p.time, 'time', rtol=0, atol=1e-8)
        y, f = divmod(p.time, 1)
        c.eq(int(h.month), 12*(int(y)-2002)+int(f*12)+1, 'month')


@check.section('dates', quick=60, thorough=600)
def dates(c):
    p = Model(c, c.cycle('itsg', 'swarm', 'gax'))
    c.note(name=p.name)
    for f in (p.name, '/some/folder/'+p.name, pathlib.Path('x')/p.name):
        got = g.time.parse_gfc_file(f, p.proc, p.dset)
        for k, (x, d) in enumerate(zip(got, (p.start, p.end))):
            c.eq([int(v) for v in x], list(d.timetuple()[:6]),
                ('start', 'end')[k])
