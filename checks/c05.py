"""C05: units of measure."""
from symx.run import case

import json
import os
import numpy as np
import resqpy.weights_and_measures as wam
from resqpy.olio.exceptions import IncompatibleUnitsError, InvalidUnitError

META = dict(
    title = 'Unit conversion is the physical conversion and is reversible',
    statement = 'Converting a value between any two units of the same quantity gives the value implied by the unit definitions, '
    'including units with an origin shift, and agrees between scalar, array and in-situ forms. Converting back, '
    'or going through a third unit, gives the same value. Conversions between units of different dimensions, and '
    'units not applicable to the stated quantity, are rejected.',
    text = 'every unit of the supported quantities, any value',
    why = 'tests convert a few values between a few units; factors are applied in several functions',
    files = ['resqpy/weights_and_measures/weights_and_measures.py', 'resqpy/olio/data/properties.json'],
    mechanism = [('conversion formula', 'resqpy/weights_and_measures/weights_and_measures.py')],
    observe = ['return values and arrays modified in situ'],
    note = 'every unit of 14 quantities against reference units; values any real within 1e6; reals idealised')

with open(os.path.join(os.path.dirname(wam.__file__), '..', 'olio', 'data', 'properties.json')) as _f:
    UNITS = json.load(_f)
# independent definitions: value in base unit = (x + shift) * factor
KNOWN = {
    'm': 1.0, 'ft': 0.3048, 'km': 1000.0, 'cm': 0.01, 'in': 0.0254, 'yd': 0.9144, 'mi': 1609.344, 'ft[US]': 1200.0 / 3937.0,
    's': 1.0, 'ms': 0.001, 'min': 60.0, 'h': 3600.0, 'd': 86400.0, 'wk': 604800.0,
    'Pa': 1.0, 'kPa': 1.0e3, 'MPa': 1.0e6, 'bar': 1.0e5, 'psi': 6894.757293168361, 'atm': 101325.0,
    'm3': 1.0, 'ft3': 0.028316846592, 'bbl': 0.158987294928, '1000 bbl': 158.987294928, 'L': 0.001, 'cm3': 1.0e-6,
    '1000 ft3': 28.316846592, '1E6 ft3': 28316.846592, '1000 m3': 1000.0,
    'm3/d': 1.0 / 86400.0, 'bbl/d': 0.158987294928 / 86400.0, 'ft3/d': 0.028316846592 / 86400.0, 'm3/s': 1.0,
    'm2': 1.0, 'ft2': 0.09290304, 'ha': 1.0e4,
    'Pa.s': 1.0, 'cP': 0.001, 'P': 0.1, 'kg/m3': 1.0, 'g/cm3': 1000.0, 'lbm/ft3': 16.01846337396,
    'D': 9.869233e-13, 'mD': 9.869233e-16,
    'rad': 1.0, 'dega': 0.017453292519943295,
}
QUANTITIES = ['length', 'time', 'pressure', 'volume', 'volume per time', 'thermodynamic temperature', 'permeability rock',
              'dynamic viscosity', 'mass per volume', 'plane angle', 'area', 'energy', 'force', 'volume per volume']
REFS = {'length': ['m', 'ft'], 'time': ['d', 's'], 'pressure': ['kPa', 'psi'], 'volume': ['m3', 'bbl'],
        'volume per time': ['m3/d', 'bbl/d'], 'thermodynamic temperature': ['K', 'degC', 'degF'],
        'permeability rock': ['mD'], 'dynamic viscosity': ['cP'], 'mass per volume': ['kg/m3'],
        'plane angle': ['dega', 'rad'], 'area': ['m2'], 'energy': ['J'], 'force': ['N'], 'volume per volume': ['m3/m3']}


def _factors(u):
    d = UNITS['units'][u]
    if 'A' not in d:
        return 0.0, 1.0, 1.0
    return float(d['A']), float(d['B']), float(d['C'])


def _base(u, x):
    a, b, cc = _factors(u)
    return (x * b + a) / cc


@case('C05', bounds = 'every unit of the quantity against the reference units, any value in [-10^6, 10^6]', params = [
    dict(quantity = q) for q in QUANTITIES])
def convert(c, quantity):
    members = sorted(wam.valid_uoms(quantity = quantity))
    u = c.choice('u', members)
    r = c.choice('ref', REFS[quantity])
    if UNITS['units'][u]['dimension'] != UNITS['units'][r]['dimension']:
        return
    x = c.real('x', -10**6, 10**6)
    y = wam.convert(x, u, r, quantity = quantity)
    # compared relative to the size of the factor so that tiny units are not lost in the tolerance
    a1, b1, c1 = _factors(u)
    a2, b2, c2 = _factors(r)
    f = (b1 / c1) / (b2 / c2)
    shift = (a1 / c1 - a2 / c2) / (b2 / c2)
    c.close('value implied by unit definitions', y / f, x + shift / f, tol = 1.0e-9)
    c.close('round trip', wam.convert(y, r, u, quantity = quantity), x, tol = 1.0e-9)
    if a1 == 0.0 and a2 == 0.0:
        arr = c.array([x, 2.0 * x, 1.0], dtype = float)
        z = wam.convert(arr, u, r, quantity = quantity, inplace = True)
        c.close('in situ', [arr[0] / f, arr[1] / f, arr[2] / f], [x, 2.0 * x, 1.0], tol = 1.0e-9)
        c.same('in situ return', z, arr)
    arr = c.array([x, 2.0 * x], dtype = float)
    z = wam.convert(arr, u, r, quantity = quantity)
    c.close('array', z[0] / f, y / f, tol = 1.0e-9)
    c.same('array left alone', arr, [x, 2.0 * x])
    if len(REFS[quantity]) > 1:
        w = REFS[quantity][1] if r == REFS[quantity][0] else REFS[quantity][0]
        fw = _factors(w)[1] / _factors(w)[2]
        direct = wam.convert(x, u, w)
        via = wam.convert(y, r, w)
        g = (b1 / c1) / fw
        c.close('through a third unit', via / g, direct / g, tol = 1.0e-9)
    if u in KNOWN and r in KNOWN:
        k = KNOWN[u] / KNOWN[r]
        c.close('physical definition', y / k, x, tol = 1.0e-6)
    c.same('valid uom unchanged', wam.rq_uom(u), u)


@case('C05', bounds = 'every pair of known units per helper, any value')
def helpers(c):
    name, fn, units = c.choice('fn', [
        ('length', wam.convert_lengths, ['m', 'ft', 'km', 'cm', 'ft[US]', 'in']),
        ('time', wam.convert_times, ['s', 'ms', 'min', 'h', 'd', 'wk']),
        ('pressure', wam.convert_pressures, ['Pa', 'kPa', 'bar', 'psi', 'atm']),
        ('volume', wam.convert_volumes, ['m3', 'ft3', 'bbl', '1000 bbl', '1000 ft3', 'cm3']),
        ('flow', wam.convert_flow_rates, ['m3/d', 'bbl/d', 'ft3/d', 'm3/s'])])
    u = c.choice('u', units)
    v = c.choice('v', units)
    x = c.real('x', -10**6, 10**6)
    k = KNOWN[u] / KNOWN[v]
    c.close('scalar', fn(x, u, v) / k, x)
    a = c.array([x, x + 1.0], dtype = float)
    fn(a, u, v)
    c.close('array in situ', [a[0] / k, a[1] / k], [x, x + 1.0])
    if name == 'time':
        b = c.array([x, x + 1.0], dtype = float)
        fn(b, u, v, invert = True)
        c.close('inverse', [b[0] * k, b[1] * k], [x, x + 1.0])


@case('C05', bounds = 'every combination of component units, any value')
def transmissibility(c):
    us = [c.choice(f'{n}{i}', o) for n in 'ab' for i, o in enumerate(
        [['m3', 'bbl', 'ft3'], ['cP', 'Pa.s'], ['kPa', 'psi', 'bar'], ['d', 's']])]
    x = c.real('x', -10**6, 10**6)
    form = '{}.{}/({}.{})'
    k = KNOWN[us[0]] * KNOWN[us[1]] / (KNOWN[us[2]] * KNOWN[us[3]])
    k /= KNOWN[us[4]] * KNOWN[us[5]] / (KNOWN[us[6]] * KNOWN[us[7]])
    y = wam.convert_transmissibilities(x, form.format(*us[:4]), form.format(*us[4:]))
    c.close('physical definition', y / k, x)


@case('C05', bounds = 'units of different dimensions, units of another quantity')
def rejected(c):
    reps = ['m', 'd', 'psi', 'bbl', 'm3/d', 'degC', 'mD', 'cP', 'kg/m3', 'dega']
    u = c.choice('u', reps)
    v = c.choice('v', reps)
    x = c.real('x', -10, 10)
    if u != v:
        c.raises('different dimensions', lambda: wam.convert(x, u, v), IncompatibleUnitsError)
    q = c.choice('q', QUANTITIES[:9])
    if u not in wam.valid_uoms(quantity = q):
        c.raises('not a unit of the quantity', lambda: wam.convert(x, u, u, quantity = q), InvalidUnitError)
