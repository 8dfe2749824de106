"""C21: features, interpretations and stratigraphy."""
from symx.run import case
import resqpy.model as rq
import resqpy.organize as rqo
import resqpy.organize._utils as rqo_utils
import resqpy.strata as rqs
import resqpy.strata._geologic_unit_interpretation as rqs_gui
import resqpy.strata._stratigraphic_unit_interpretation as rqs_sui
import resqpy.strata._stratigraphic_column_rank as rqs_scr
import resqpy.strata._stratigraphic_column as rqs_sc
import resqpy.strata._binary_contact_interpretation as rqs_bci
import resqpy.strata._strata_common as rqs_common
import resqpy.olio.uuid as bu
from checks.c08 import _model, _reopen

META = dict(
    title = 'Features, interpretations and strata load as made and are reused only if same',
    statement = 'Every feature, interpretation, stratigraphic unit, contact, rank and column that is stored loads with each attribute '
    'it was given, whichever of the valid kinds, domains, compositions, modes, throws, angles, thicknesses and ages those are, and '
    'is related to the feature it interprets. When creating with reuse, an object in the model is used in place of the new one '
    'exactly when the attributes by which its class is compared agree, and units, ranks and contacts keep their order.',
    text = 'any valid kind or mode of each attribute, present or not, any throws, angles, thicknesses, ages and indices',
    why = 'an attribute read from, or written with, the wrong place goes unseen unless a test gives that attribute a value unlike '
    'the others and loads it again, and reuse goes wrong one attribute at a time',
    files = ['resqpy/organize/fault_interpretation.py', 'resqpy/organize/horizon_interpretation.py',
             'resqpy/organize/geobody_interpretation.py', 'resqpy/organize/_utils.py',
             'resqpy/strata/_stratigraphic_column_rank.py', 'resqpy/strata/_stratigraphic_unit_interpretation.py'],
    mechanism = [('storing, loading and comparing each class', 'resqpy/organize'),
                 ('units, contacts, ranks and columns', 'resqpy/strata'),
                 ('reuse of equivalent objects', 'resqpy/olio/base.py')],
    observe = ['attributes of objects loaded from file; number of objects of the class in the model; their order'],
    note = 'one object at a time, with one attribute over its full range and the rest at one of two values; two objects for reuse, '
    'with each attribute the same or not; up to 3 units, contacts and ranks; attributes which a class does not compare are kept equal')

DOMAINS = ('depth', 'time', 'mixed')
NUMBER = 'number'  # any number
INTEGER = 'integer'


def _features():
    return {
        'boundary': (rqo.BoundaryFeature, {}),
        'frontier': (rqo.FrontierFeature, {}),
        'geobody': (rqo.GeobodyFeature, {}),
        'geologic unit': (rqo.GeologicUnitFeature, {}),
        'wellbore': (rqo.WellboreFeature, {}),
        'tectonic': (rqo.TectonicBoundaryFeature, dict(kind = ('fault', 'fracture'))),
        'genetic': (rqo.GeneticBoundaryFeature, dict(kind = ('horizon', 'geobody boundary'))),
        'fluid': (rqo.FluidBoundaryFeature, dict(kind = ('free water contact', 'gas oil contact', 'gas water contact', 'seal',
                                                         'water oil contact'))),
        'organization': (rqo.OrganizationFeature, dict(organization_kind = ('earth model', 'fluid', 'stratigraphic',
                                                                            'structural'))),
        'unit': (rqs.StratigraphicUnitFeature, {}),
    }


_COMP = ('intrusive clay', 'organic', 'intrusive mud', 'evaporite salt', 'evaporite non salt', 'sedimentary siliclastic',
         'carbonate', 'magmatic intrusive granitoid', 'magmatic extrusive lava flow', 'other chemichal rock',
         'sedimentary turbidite')
_IMPL = (None, 'autochtonous', 'allochtonous')
_REL = (None, ('conformable',), ('unconformable below and above',), ('unconformable above', 'unconformable below'))


def _interpretations():
    # class, keyword for feature, feature, attributes (valid options); compared: attributes by which class is compared
    return {
        'boundary': (rqo.BoundaryFeatureInterpretation, 'boundary_feature', 'boundary', dict(domain = DOMAINS)),
        'earth model': (rqo.EarthModelInterpretation, 'organization_feature', 'organization', dict(domain = DOMAINS)),
        'generic': (rqo.GenericInterpretation, 'feature_uuid', 'frontier', dict(domain = DOMAINS)),
        'fault': (rqo.FaultInterpretation, 'tectonic_boundary_feature', 'tectonic',
                  dict(domain = DOMAINS, is_listric = (None, True, False), maximum_throw = (None, NUMBER),
                       mean_azimuth = (None, NUMBER), mean_dip = (None, NUMBER))),
        'geobody boundary': (rqo.GeobodyBoundaryInterpretation, 'genetic_boundary_feature', 'genetic',
                             dict(domain = DOMAINS, boundary_relation_list = _REL)),
        'horizon': (rqo.HorizonInterpretation, 'genetic_boundary_feature', 'genetic',
                    dict(domain = DOMAINS, boundary_relation_list = _REL,
                         sequence_stratigraphy_surface = (None, 'flooding', 'ravinement', 'maximum flooding',
                                                          'transgressive'))),
        'geobody': (rqo.GeobodyInterpretation, 'geobody_feature', 'geobody',
                    dict(domain = DOMAINS, composition = (None,) + _COMP, material_implacement = _IMPL,
                         geobody_shape = (None, 'dyke', 'sill', 'dome', 'sheet', 'diapir', 'batholith', 'channel', 'delta',
                                          'dune', 'fan', 'reef', 'wedge'))),
        'wellbore': (rqo.WellboreInterpretation, 'wellbore_feature', 'wellbore',
                     dict(domain = DOMAINS, is_drilled = (False, True))),
        'geologic unit': (rqs.GeologicUnitInterpretation, 'geologic_unit_feature', 'geologic unit',
                          dict(domain = DOMAINS, composition = (None,) + _COMP, material_implacement = _IMPL)),
        'unit': (rqs.StratigraphicUnitInterpretation, 'stratigraphic_unit_feature', 'unit',
                 dict(domain = DOMAINS, composition = (None,) + _COMP, material_implacement = _IMPL,
                      deposition_mode = (None, 'proportional between top and bottom', 'parallel to bottom', 'parallel to top',
                                         'parallel to another boundary'),
                      min_thickness = (None, NUMBER), max_thickness = (None, NUMBER))),
    }


def _value(c, name, option):
    if option == NUMBER:
        return c.real(name, 0, 1000)
    return option


def _any_attributes(c, attrs):
    """One attribute with any of its options, the rest all with their first or all with their last."""
    n = sum(len(o) for o in attrs.values())
    values = {}
    if n:
        last = c.fix(c.bool('last'))
        values = {a: o[-1 if last else 0] for a, o in attrs.items()}
        w = c.fix(c.int('which', 0, n - 1))
        for a, o in attrs.items():
            if 0 <= w < len(o):
                values[a] = o[w]
            w -= len(o)
    return {a: _value(c, a, o) for a, o in values.items()}


def _make(m, cls, values, **more):
    k = dict(values)
    if isinstance(k.get('boundary_relation_list'), tuple):
        k['boundary_relation_list'] = list(k['boundary_relation_list'])
    if cls is rqo.FaultInterpretation:
        k['is_normal'] = k['is_listric'] is None
    if cls is rqs.StratigraphicUnitInterpretation and not (k.get('min_thickness') is None and k.get('max_thickness') is None):
        k['thickness_uom'] = 'ft'
    k.update(more)
    return cls(m, **k)


def _make_feature(m, what, values, name, **more):
    cls = _features()[what][0]
    key = 'title' if cls is rqs.StratigraphicUnitFeature else 'feature_name'
    return cls(m, **{key: name}, **values, **more)


def _default_feature(m, what, name = 'feature'):
    attrs = _features()[what][1]
    f = _make_feature(m, what, {a: o[0] for a, o in attrs.items()}, name)
    f.create_xml()
    return f


def _linked(m, keyword, feature):
    return {keyword: feature.uuid if keyword == 'feature_uuid' else feature}


def _compare(c, obj, values, title):
    c.check('title is that given', obj.title == title)
    for a, v in values.items():
        got = getattr(obj, 'implacement' if a == 'material_implacement' and not hasattr(obj, a) else a)
        if a == 'boundary_relation_list':
            c.check('boundary relations are those given', (None if not got else tuple(got)) == v)
        elif v is None or isinstance(v, (str, bool)):
            c.check(f'{a} is that given', got is v if v is None or isinstance(v, bool) else got == v)
        else:
            c.check(f'{a} is present', got is not None)
            if got is not None:
                c.close(f'{a} is that given', got, v)


@case('C21', 'feature is loaded as made',
      params = [dict(what = k) for k in ('boundary', 'frontier', 'geobody', 'geologic unit', 'wellbore', 'tectonic', 'genetic',
                                         'fluid', 'organization', 'unit')],
      bounds = 'any valid kind, with or without extra metadata')
def features(c, what):
    m = _model(c)
    cls, attrs = _features()[what]
    values = _any_attributes(c, attrs)
    em = {'remark': 'as seen'} if c.fix(c.bool('metadata')) else None
    f = _make_feature(m, what, values, 'name of it', extra_metadata = em)
    f.create_xml()
    m2 = _reopen(c, m)
    g = cls(m2, uuid = f.uuid)
    _compare(c, g, values, 'name of it')
    c.check('extra metadata are those given', (g.extra_metadata or {}) == (em or {}))
    c.check('one object is stored', len(m2.uuids(obj_type = cls.resqml_type)) == 1)
    c.check('it is equivalent to that made', g == f and f == g)


@case('C21', 'age of a genetic boundary is loaded as given', bounds = 'any year offset, or none')
def boundary_age(c):
    m = _model(c)
    year = c.int('year', -400000000, 400000000) if c.fix(c.bool('offset')) else None
    f = rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = 'h', absolute_age = ('2000-01-01T00:00:00Z', year))
    f.create_xml()
    m2 = _reopen(c, m)
    g = rqo.GeneticBoundaryFeature(m2, uuid = f.uuid)
    c.check('date is that given', g.absolute_age is not None and g.absolute_age[0] == '2000-01-01T00:00:00Z')
    if year is None:
        c.check('there is no year offset', g.absolute_age[1] is None)
    else:
        c.check('year offset is that given', g.absolute_age[1] == year)


@case('C21', 'rock fluid unit is loaded as made', bounds = 'any phase, the same or different boundaries')
def rock_fluid_unit(c):
    m = _model(c)
    top = _default_feature(m, 'boundary', 'top')
    base = _default_feature(m, 'boundary', 'base') if c.fix(c.bool('two')) else top
    phase = rqo.RockFluidUnitFeature.valid_phases[c.fix(c.int('phase', 0, 3))]
    f = rqo.RockFluidUnitFeature(m, phase = phase, feature_name = 'u', top_boundary_feature = top, base_boundary_feature = base)
    f.create_xml()
    m2 = _reopen(c, m)
    g = rqo.RockFluidUnitFeature(m2, uuid = f.uuid)
    c.check('phase and name are those given', g.phase == phase and g.title == 'u')
    c.check('top is that given', bu.matching_uuids(g.top_boundary_feature.uuid, top.uuid))
    c.check('base is that given', bu.matching_uuids(g.base_boundary_feature.uuid, base.uuid))
    c.check('boundaries have their names', g.top_boundary_feature.title == 'top' and g.base_boundary_feature.title == ('top' if base is top else 'base'))
    for b in (top, base):
        c.check('unit is related to its boundary', any(bu.matching_uuids(b.uuid, u) for u in m2.uuids(related_uuid = g.uuid)))


@case('C21', 'interpretation is loaded as made',
      params = [dict(what = k) for k in ('boundary', 'earth model', 'generic', 'fault', 'geobody boundary', 'horizon', 'geobody',
                                         'wellbore', 'geologic unit', 'unit')],
      bounds = 'any valid value of each attribute, present or not, any numbers')
def interpretations(c, what):
    m = _model(c)
    cls, keyword, feat, attrs = _interpretations()[what]
    feature = _default_feature(m, feat)
    values = _any_attributes(c, attrs)
    i = _make(m, cls, values, title = 'name of it', **_linked(m, keyword, feature))
    i.create_xml()
    m2 = _reopen(c, m)
    j = cls(m2, uuid = i.uuid)
    _compare(c, j, values, 'name of it')
    if keyword == 'feature_uuid':
        c.check('feature is that given', bu.matching_uuids(j.feature_uuid, feature.uuid))
    else:
        f = getattr(j, keyword)
        c.check('feature is that given', f is not None and bu.matching_uuids(f.uuid, feature.uuid))
        c.check('feature is as made', type(f) is type(feature) and f == feature and f.title == 'feature')
    if what == 'fault':
        c.check('fault is normal when not said to be listric or otherwise', bool(j.is_normal) == (values['is_listric'] is None))
    if what == 'unit' and not (values['min_thickness'] is None and values['max_thickness'] is None):
        c.check('unit of thickness is that given', j.thickness_uom == 'ft')
    c.check('it is related to its feature', any(bu.matching_uuids(feature.uuid, u) for u in m2.uuids(related_uuid = j.uuid)))
    c.check('one object is stored', len(m2.uuids(obj_type = cls.resqml_type)) == 1)
    c.check('it is equivalent to that made', j == i and i == j)


@case('C21', 'interval of occurrence is loaded as given',
      params = [dict(what = k) for k in ('boundary', 'earth model', 'generic', 'fault', 'geobody boundary', 'horizon', 'geobody',
                                         'geologic unit', 'unit')],
      bounds = 'either order of the two ages, or none')
def occurrence(c, what):
    m = _model(c)
    cls, keyword, feat, attrs = _interpretations()[what]
    feature = _default_feature(m, feat)
    ages = [rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = n) for n in ('one', 'two')]
    for a in ages:
        a.create_xml()
    if c.fix(c.bool('swap')):
        ages = ages[::-1]
    pair = (str(ages[0].uuid), str(ages[1].uuid)) if c.fix(c.bool('given')) else (None, None)
    i = _make(m, cls, {a: o[0] for a, o in attrs.items()}, title = 't', **_linked(m, keyword, feature))
    attr = 'main_has_occurred_during' if what == 'fault' else 'has_occurred_during'
    setattr(i, attr, pair)
    i.create_xml()
    m2 = _reopen(c, m)
    j = cls(m2, uuid = i.uuid)
    got = getattr(j, attr)
    c.check('interval is that given', tuple(None if g is None else str(g) for g in got) == pair)


@case('C21', 'title of an interpretation is by default that of its feature',
      params = [dict(what = k) for k in ('boundary', 'earth model', 'generic', 'fault', 'geobody boundary', 'horizon', 'geobody',
                                         'wellbore', 'geologic unit', 'unit')],
      bounds = 'title given or not')
def titles(c, what):
    m = _model(c)
    cls, keyword, feat, attrs = _interpretations()[what]
    feature = _default_feature(m, feat)
    title = 'own' if c.fix(c.bool('own')) else None
    i = _make(m, cls, {a: o[0] for a, o in attrs.items()}, title = title, **_linked(m, keyword, feature))
    i.create_xml()
    m2 = _reopen(c, m)
    c.check('title is that given or that of the feature', cls(m2, uuid = i.uuid).title == (title or 'feature'))


def _pair(c, attrs, compared):
    """Two sets of attributes, each the same or not."""
    first, second, same = {}, {}, True
    for a, o in attrs.items():
        o = [x for x in o if x != NUMBER] or list(o)
        first[a] = second[a] = o[-1]
        if a in compared and len(o) > 1 and not c.fix(c.bool(f'same {a}')):
            second[a] = o[0]
            same = False
    return first, second, same


def _stored_twice(c, cls, a, b, same):
    a.create_xml()
    assert b.uuid != a.uuid
    c.check('they are equivalent exactly when attributes agree', (a == b) == same and (b == a) == same)
    b.create_xml(reuse = True)
    n = len(b.model.uuids(obj_type = cls.resqml_type))
    c.check('one object is used for both exactly when attributes agree', n == (1 if same else 2))
    c.check('the uuid is that of the first exactly when attributes agree', bu.matching_uuids(a.uuid, b.uuid) == same)


@case('C21', 'feature is reused when and only when same',
      params = [dict(what = k) for k in ('boundary', 'frontier', 'geobody', 'geologic unit', 'wellbore', 'tectonic', 'genetic',
                                         'fluid', 'organization', 'unit')],
      bounds = 'each of kind, name and extra metadata the same or not')
def feature_reuse(c, what):
    m = _model(c)
    cls, attrs = _features()[what]
    first, second, same = _pair(c, attrs, attrs)
    name = 'n' if c.fix(c.bool('same name')) else 'other'
    em = {'a': 'b'} if c.fix(c.bool('same metadata')) else {'a': 'c'}
    same = same and name == 'n' and em == {'a': 'b'}
    _stored_twice(c, cls, _make_feature(m, what, first, 'n', extra_metadata = {'a': 'b'}),
                  _make_feature(m, what, second, name, extra_metadata = em), same)


@case('C21', 'age is among what a genetic boundary is reused by', bounds = 'any two year offsets')
def age_reuse(c):
    m = _model(c)
    years = c.ints('year', 2, -1000, 1000)
    a, b = (rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = 'h', absolute_age = ('2000-01-01T00:00:00Z', y))
            for y in years)
    _stored_twice(c, rqo.GeneticBoundaryFeature, a, b, bool(years[0] == years[1]))


@case('C21', 'interpretation is reused when and only when same',
      params = [dict(what = k) for k in ('boundary', 'earth model', 'generic', 'fault', 'geobody boundary', 'horizon', 'geobody',
                                         'wellbore', 'geologic unit', 'unit')],
      bounds = 'each attribute, title, feature and extra metadata the same or not')
def interpretation_reuse(c, what):
    m = _model(c)
    cls, keyword, feat, attrs = _interpretations()[what]
    compared = [a for a in attrs if a not in ('deposition_mode', 'min_thickness', 'max_thickness')]
    first, second, same = _pair(c, attrs, compared)
    feature = _default_feature(m, feat)
    other = feature if c.fix(c.bool('same feature')) else _default_feature(m, feat, 'other feature')
    title = 't' if c.fix(c.bool('same title')) else 'other'
    em = {'a': 'b'} if c.fix(c.bool('same metadata')) else {'a': 'c'}
    same = same and other is feature and title == 't' and em == {'a': 'b'}
    c.assume(what != 'horizon' or not same)  # see next case
    _stored_twice(c, cls, _make(m, cls, first, title = 't', extra_metadata = {'a': 'b'}, **_linked(m, keyword, feature)),
                  _make(m, cls, second, title = title, extra_metadata = em, **_linked(m, keyword, other)), same)


@case('C21', 'horizon interpretation is reused when same', bounds = 'any of the sequence stratigraphy surfaces')
def horizon_reuse(c):
    m = _model(c)
    cls, keyword, feat, attrs = _interpretations()['horizon']
    surface = ('flooding', 'ravinement', 'maximum flooding', 'transgressive')[c.fix(c.int('surface', 0, 3))]
    feature = _default_feature(m, feat)
    a, b = (rqo.HorizonInterpretation(m, genetic_boundary_feature = feature, domain = 'depth', title = 't',
                                      sequence_stratigraphy_surface = surface) for _ in range(2))
    a.create_xml()
    b.create_xml(reuse = True)
    c.check('one object is used for both', bu.matching_uuids(a.uuid, b.uuid))


@case('C21', 'fault interpretation is reused when numbers are alike', bounds = 'any throws, azimuths and dips',
      params = [dict(which = w) for w in ('maximum_throw', 'mean_azimuth', 'mean_dip')])
def fault_reuse(c, which):
    m = _model(c)
    feature = _default_feature(m, 'tectonic')
    values = dict(maximum_throw = 10.0, mean_azimuth = 20.0, mean_dip = 30.0)
    x = c.real('first', 1, 400)
    k = c.fix(c.int('alike', 0, 2))  # same, well apart, only one present
    y = x
    if k == 1:
        y = c.real('second', 1, 400)
        c.assume(c.Or(y > x * 1.01 + 1, x > y * 1.01 + 1))
    elif k == 2:
        y = None
    a = _make(m, rqo.FaultInterpretation, dict(values, is_listric = None, **{which: x}), title = 't',
              tectonic_boundary_feature = feature)
    b = _make(m, rqo.FaultInterpretation, dict(values, is_listric = None, **{which: y}), title = 't',
              tectonic_boundary_feature = feature)
    _stored_twice(c, rqo.FaultInterpretation, a, b, k == 0)


@case('C21', 'throws of a fault are loaded as given', bounds = 'up to 3 throws of any kinds over two intervals')
def fault_throws(c):
    m = _model(c)
    feature = _default_feature(m, 'tectonic')
    ages = [rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = n) for n in ('one', 'two', 'three')]
    for a in ages:
        a.create_xml()
    u = [str(a.uuid) for a in ages]
    intervals = ((u[0], u[1]), (u[1], u[2]), (None, None))
    kinds = ('reverse', 'strike-slip', 'thrust')
    n = c.fix(c.int('n', 0, 3))
    throws = [(kinds[i], intervals[c.fix(c.int(f'interval{i}', 0, 2))]) for i in range(n)]
    i = _make(m, rqo.FaultInterpretation, dict(is_listric = None), title = 't', tectonic_boundary_feature = feature)
    i.throw_interpretation_list = throws
    i.create_xml()
    m2 = _reopen(c, m)
    j = rqo.FaultInterpretation(m2, uuid = i.uuid)
    got = [(k, tuple(None if p is None else str(p) for p in pair)) for k, pair in (j.throw_interpretation_list or [])]
    c.check('throws are those given, in order', got == throws)


def _units(m, n):
    units = []
    for i in range(n):
        f = _make_feature(m, 'unit', {}, f'unit {i}')
        f.create_xml()
        u = rqs.StratigraphicUnitInterpretation(m, title = f'unit {i}', domain = 'time', stratigraphic_unit_feature = f)
        u.create_xml()
        units.append(u)
    return units


def _horizons(m, n):
    made = []
    for i in range(n):
        f = rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = f'horizon {i}')
        f.create_xml()
        h = rqo.HorizonInterpretation(m, genetic_boundary_feature = f, domain = 'depth')
        h.create_xml()
        made.append(h)
    return made


def _earth(m):
    e = rqo.OrganizationFeature(m, feature_name = 'earth', organization_kind = 'stratigraphic')
    e.create_xml()
    return e


@case('C21', 'rank is loaded with its units and contacts in order', bounds = 'up to 3 units, any index, domain and contact modes')
def ranks(c):
    m = _model(c)
    n = c.fix(c.int('units', 1, 3))
    units, horizons, earth = _units(m, n), _horizons(m, n - 1), _earth(m)
    domain = DOMAINS[c.fix(c.int('domain', 0, 2))] if n == 1 else 'time'
    index = c.int('index', 0, 1000)
    modes = (None, 'baselap', 'erosion', 'extended', 'proportional')
    older = modes[c.fix(c.int('older', 0, 4))] if n == 2 else modes[1]
    younger = modes[c.fix(c.int('younger', 0, 4))] if n == 2 else modes[2]
    rank = rqs.StratigraphicColumnRank(m, domain = domain, rank_index = index, earth_model_feature_uuid = earth.uuid,
                                       strata_uuid_list = [u.uuid for u in units], title = 'r')
    rank.set_contacts_from_horizons([h.uuid for h in horizons], older_contact_mode = older, younger_contact_mode = younger)
    rank.create_xml()
    m2 = _reopen(c, m)
    r = rqs.StratigraphicColumnRank(m2, uuid = rank.uuid)
    c.check('domain and title are those given', r.domain == domain and r.title == 'r')
    c.check('index is that given', r.index == index)
    c.check('feature is that given', bu.matching_uuids(r.feature_uuid, earth.uuid))
    c.check('units are those given, in order', [str(u.uuid) for u in r.iter_units()] == [str(u.uuid) for u in units])
    for i, u in enumerate(units):
        got = r.unit_for_unit_index(i)
        c.check('unit of each index', got is not None and bu.matching_uuids(got.uuid, u.uuid) and got.title == f'unit {i}')
    c.check('there is no further unit', r.unit_for_unit_index(n) is None)
    contacts = list(r.iter_contacts())
    c.check('one contact between each two units', len(contacts) == n - 1)
    for i, k in enumerate(contacts):
        c.check('contacts are in order', k.index == i)
        c.check('contact is part of its horizon', bu.matching_uuids(k.part_of_uuid, horizons[i].uuid))
        c.check('contact is between its two units', bu.matching_uuids(k.subject_uuid, units[i].uuid) and bu.matching_uuids(k.direct_object_uuid, units[i + 1].uuid))
        c.check('sides are older and younger', k.subject_contact_side == 'older' and k.direct_object_contact_side == 'younger')
        c.check('modes are those given', k.subject_contact_mode == older and k.direct_object_contact_mode == younger)
    related = [str(u) for u in m2.uuids(related_uuid = r.uuid)]
    for o in list(units) + list(horizons) + [earth]:
        c.check('rank is related to its units, horizons and feature', str(o.uuid) in related)


@case('C21', 'contact is loaded as made', bounds = 'any relationship, verb, sides and modes, part of a horizon or not',
      params = [dict(which = w) for w in ('relationship', 'verb', 'subject', 'object')])
def contact(c, which):
    m = _model(c)
    units, (horizon,), earth = _units(m, 2), _horizons(m, 1), _earth(m)

    def pick(name, options, free, fixed):
        return options[c.fix(c.int(name, 0, len(options) - 1))] if free else options[fixed]

    sides = (None,) + tuple(rqs.valid_contact_sides)
    modes = (None,) + tuple(rqs.valid_contact_modes)
    k = dict(contact_relationship = pick('relationship', rqs.valid_contact_relationships, which == 'relationship', 3),
             verb = pick('verb', rqs.valid_contact_verbs, which == 'verb', 2),
             subject_contact_side = pick('ss', sides, which == 'subject', 3),
             subject_contact_mode = pick('sm', modes, which == 'subject', 1),
             direct_object_contact_side = pick('os', sides, which == 'object', 5),
             direct_object_contact_mode = pick('om', modes, which == 'object', 2))
    part_of = horizon.uuid if c.fix(c.bool('part')) else None
    swap = c.fix(c.bool('swap')) if which in ('relationship', 'verb') else False
    first, second = (1, 0) if swap else (0, 1)
    indices = c.ints('index', 2, 0, 9)
    rank = rqs.StratigraphicColumnRank(m, rank_index = 0, earth_model_feature_uuid = earth.uuid,
                                       strata_uuid_list = [u.uuid for u in units], title = 'r')
    rank.contacts = [rqs.BinaryContactInterpretation(m, index = indices[0], subject_uuid = units[first].uuid,
                                                     direct_object_uuid = units[second].uuid, part_of_uuid = part_of, **k)]
    if which == 'verb':
        c.assume(indices[0] != indices[1])
        rank.contacts.append(rqs.BinaryContactInterpretation(m, index = indices[1], subject_uuid = units[second].uuid,
                                                             direct_object_uuid = units[first].uuid, part_of_uuid = part_of, **k))
    rank.create_xml()
    m2 = _reopen(c, m)
    got = list(rqs.StratigraphicColumnRank(m2, uuid = rank.uuid).iter_contacts())
    c.check('contacts are those given', len(got) == len(rank.contacts))
    later = which == 'verb' and bool(indices[0] > indices[1])
    if len(got) == 2:
        c.check('contacts are in order of index', got[0].index <= got[1].index)
    g = got[1 if later else 0]
    c.check('index is that given', g.index == indices[0])
    for a, v in k.items():
        c.check(f'{a} is that given', getattr(g, a) == v)
    c.check('subject is that given', bu.matching_uuids(g.subject_uuid, units[first].uuid))
    c.check('object is that given', bu.matching_uuids(g.direct_object_uuid, units[second].uuid))
    c.check('horizon is that given', g.part_of_uuid is None if part_of is None else bu.matching_uuids(g.part_of_uuid, part_of))


@case('C21', 'ranks of a column are in order of index', bounds = '3 ranks of any indices, in memory and loaded')
def columns(c):
    m = _model(c)
    units, earth = _units(m, 1), _earth(m)
    indices = c.ints('index', 3, 0, 20)
    c.assume(c.And(indices[0] != indices[1], indices[1] != indices[2], indices[0] != indices[2]))
    made = []
    for i in range(3):
        r = rqs.StratigraphicColumnRank(m, rank_index = indices[i], earth_model_feature_uuid = earth.uuid,
                                        strata_uuid_list = [units[0].uuid], title = f'rank {i}')
        r.create_xml(reuse = False)
        made.append(r)
    column = rqs.StratigraphicColumn(m, rank_uuid_list = [r.uuid for r in made], title = 'col')
    column.create_xml()
    m2 = _reopen(c, m)
    for col, label in ((column, 'in memory'), (rqs.StratigraphicColumn(m2, uuid = column.uuid), 'loaded')):
        ranks_ = list(col.iter_ranks())
        c.check(f'ranks are those given {label}', col.title == 'col' and len(ranks_) == 3)
        c.check(f'each rank is present {label}', sorted(str(r.uuid) for r in ranks_) == sorted(str(r.uuid) for r in made))
        for a, b in zip(ranks_[:-1], ranks_[1:]):
            c.check(f'ranks are in order {label}', a.index < b.index)
        for r in ranks_:
            k = [i for i in range(3) if str(made[i].uuid) == str(r.uuid)][0]
            c.check(f'each rank has its index {label}', r.index == indices[k] and r.title == f'rank {k}')


@case('C21', 'column is reused when and only when of the same ranks', bounds = 'either of two ranks, one or two of them')
def column_reuse(c):
    m = _model(c)
    units, earth = _units(m, 1), _earth(m)
    made = []
    for i in range(2):
        r = rqs.StratigraphicColumnRank(m, rank_index = i, earth_model_feature_uuid = earth.uuid,
                                        strata_uuid_list = [units[0].uuid], title = f'rank {i}')
        r.create_xml(reuse = False)
        made.append(r)
    sets = [[r for r, b in zip(made, c.bools(f'set{s}', 2)) if c.fix(b)] for s in range(2)]
    c.assume(bool(sets[0]) and bool(sets[1]))
    a, b = (rqs.StratigraphicColumn(m, rank_uuid_list = [r.uuid for r in s], title = 'col') for s in sets)
    _stored_twice(c, rqs.StratigraphicColumn, a, b, [str(r.uuid) for r in sets[0]] == [str(r.uuid) for r in sets[1]])


@case('C21', 'stratigraphic unit feature is loaded with its top and bottom', bounds = 'each present or not, the same or not')
def unit_feature(c):
    m = _model(c)
    ages = [rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = n) for n in ('one', 'two')]
    for a in ages:
        a.create_xml()
    top = (None, ages[0].uuid, ages[1].uuid)[c.fix(c.int('top', 0, 2))]
    bottom = (None, ages[0].uuid, ages[1].uuid)[c.fix(c.int('bottom', 0, 2))]
    f = rqs.StratigraphicUnitFeature(m, top_unit_uuid = top, bottom_unit_uuid = bottom, title = 'f')
    f.create_xml()
    m2 = _reopen(c, m)
    g = rqs.StratigraphicUnitFeature(m2, uuid = f.uuid)
    for got, v, label in ((g.top_unit_uuid, top, 'top'), (g.bottom_unit_uuid, bottom, 'bottom')):
        c.check(f'{label} is that given', got is None if v is None else bu.matching_uuids(got, v))
    related = [str(u) for u in m2.uuids(related_uuid = g.uuid)]
    c.check('it is related to its top and bottom', sorted(related) == sorted(set(str(u) for u in (top, bottom) if u is not None)))
