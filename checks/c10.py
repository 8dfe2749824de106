"""C10: the model catalogue, relationships and consolidation."""
from symx.run import case
import os
import numpy as np
import resqpy.crs as rqc
import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.olio.xml_et as rqet
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.time_series as rqts
import resqpy.well as rqw

META = dict(
    title = 'The model catalogue and relationships track the parts through any history',
    statement = 'After any sequence of adding, removing, relating, copying, storing and reopening, the model lists exactly the '
    'parts that should be present with their types, titles and xml, its relationships are exactly the references in the xml '
    'plus the soft relationships made, and all queries agree with them. Filtered queries return exactly the matching parts '
    'in the order asked for. Copying from another model brings across everything referenced, with arrays unchanged, and '
    'consolidation reuses a resident part only when equivalent, rewriting references so that none dangle.',
    text = 'any choice of operation and target in histories of two (thorough three) steps over a model of eight parts; any '
    'filter combination; any array values, crs offsets and dates deciding equivalence',
    why = 'the catalogue keeps several dictionaries and two kinds of xml in step; a slip shows only after a particular '
    'sequence of operations on particular kinds of part',
    files = ['resqpy/model/_catalogue.py', 'resqpy/model/_forestry.py', 'resqpy/model/_xml.py', 'resqpy/olio/consolidation.py',
             'resqpy/olio/base.py', 'resqpy/olio/xml_et.py'],
    mechanism = [('catalogue queries', 'resqpy/model/_catalogue.py'), ('part management and copying', 'resqpy/model/_forestry.py'),
                 ('relationships', 'resqpy/model/_xml.py'), ('consolidation', 'resqpy/olio/consolidation.py')],
    observe = ['Model.uuids, parts, titles, roots, related queries, check_catalogue_dictionaries, stored epc content'],
    note = 'bounded histories over small models; titles and part types concrete, chosen from a small set; h5py replaced by an '
    'in memory stand-in while solving')

LO, HI = -1000.0, 1000.0


class Book:
    """What the model should hold: uuid -> (type, title, references), and soft relationships."""

    def __init__(self):
        self.obj = {}
        self.soft = set()

    def add(self, uuid, kind, title, refs = ()):
        self.obj[uuid.int] = (kind, title, frozenset(r.int for r in refs))

    def copy(self):
        b = Book()
        b.obj = dict(self.obj)
        b.soft = set(self.soft)
        return b

    def remove(self, i):
        del self.obj[i]
        self.soft = {p for p in self.soft if i not in p}

    def refs(self, i):
        return {r for r in self.obj[i][2]}

    def referrers(self, i):
        return {j for j in self.obj if i in self.obj[j][2]}

    def softs(self, i):
        s = {j for p in self.soft if i in p for j in p if j != i}
        return s - self.refs(i) - self.referrers(i)

    def closure(self, i):
        done, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in done:
                done.add(j)
                todo += list(self.obj[j][2])
        return done


def verify(c, m, book, where):
    got = [u.int for u in m.uuids()]
    c.check(f'{where}: uuids', len(got) == len(set(got)) and set(got) == set(book.obj))
    counts = {}
    for i, (kind, title, refs) in book.obj.items():
        u = bu.uuid_from_int(i)
        part = m.part_for_uuid(u)
        counts[kind] = counts.get(kind, 0) + 1
        c.same(f'{where}: part', part, f'obj_{kind}_{u}.xml')
        c.check(f'{where}: present', m.uuid_is_present(u))
        c.same(f'{where}: type', m.type_of_uuid(u, strip_obj = True), kind)
        c.same(f'{where}: title', m.title(uuid = u), title)
        root = m.root_for_uuid(u)
        c.check(f'{where}: root', root is not None and root.attrib['uuid'] == str(u))
        c.same(f'{where}: uuid of part', m.uuid_for_part(part), u)
        in_xml = {bu.uuid_from_string(rqet.find_tag_text(r, 'UUID')).int for r in rqet.list_obj_references(root)}
        c.same(f'{where}: references in xml', in_xml, set(refs))
        # relationships
        modes = (book.refs(i), book.referrers(i), book.softs(i))
        for mode in range(3):
            c.same(f'{where}: related mode {mode}', {x.int for x in m.uuids(related_uuid = u, related_mode = mode)}, modes[mode])
        c.same(f'{where}: related', {x.int for x in m.uuids(related_uuid = u)}, modes[0] | modes[1] | modes[2])
        c.same(f'{where}: referenced by', set(m.uuids_as_int_referenced_by_uuid(u) or ()), modes[0])
        c.same(f'{where}: referencing', set(m.uuids_as_int_referencing_uuid(u) or ()), modes[1])
        # the link to the hdf5 file counts as a soft relationship once an epc has been read
        c.same(f'{where}: soft', set(m.uuids_as_int_softly_related_to_uuid(u) or ()) - {m.h5_uuid().int}, modes[2])
        rels = m.root_for_part(rqet.rels_part_name_for_part(part), is_rels = True)
        if rels is not None:
            for child in rels:
                target = child.attrib['Target']
                c.check(f'{where}: relationship target present', target in m.parts_forest)
    for part in m.external_parts_list():
        for child in m.root_for_part(rqet.rels_part_name_for_part(part), is_rels = True):
            target = child.attrib['Target']
            c.check(f'{where}: hdf5 relationship target present', 'TargetMode' in child.attrib or target in m.parts_forest)
    others = dict(m.parts_count_by_type())
    others.pop('EpcExternalPartReference', None)
    c.same(f'{where}: counts', others, counts)
    main = [x.attrib['PartName'].lstrip('/') for x in m.main_root if 'PartName' in x.attrib]
    main = [x for x in main if 'obj_' in x and 'EpcExternal' not in x]
    c.check(f'{where}: content types', sorted(main) == sorted(m.parts()))
    m.check_catalogue_dictionaries()


def _model(c, name):
    return rq.Model(os.path.join(c.tmpdir, name + '.epc'), new_epc = True, quiet = True)


def _reopen(c, m):
    f = m.epc_file
    m.store_epc(quiet = True)
    m.h5_release()
    return rq.Model(f, quiet = True)


def populate(c, m, tag):
    """Adds one of each kind of part; returns the book, and the arrays by uuid int."""
    b, arrays = Book(), {}
    crs = rqc.Crs(m, title = f'crs {tag}', x_offset = 10.0 if tag == 'a' else 20.0)
    crs.create_xml()
    b.add(crs.uuid, 'LocalDepth3dCrs', f'crs {tag}')
    feature = rqo.BoundaryFeature(m, feature_name = f'feature {tag}')
    feature.create_xml()
    b.add(feature.uuid, 'BoundaryFeature', f'feature {tag}')
    wf = rqo.WellboreFeature(m, feature_name = f'well {tag}')
    wf.create_xml()
    b.add(wf.uuid, 'WellboreFeature', f'well {tag}')
    wi = rqo.WellboreInterpretation(m, title = f'well interp {tag}', wellbore_feature = wf, is_drilled = True)
    wi.create_xml()
    b.add(wi.uuid, 'WellboreInterpretation', f'well interp {tag}', [wf.uuid])
    md = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (0.0, 0.0, -50.0), title = f'datum {tag}')
    md.create_xml()
    b.add(md.uuid, 'MdDatum', f'datum {tag}', [crs.uuid])
    ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01Z' if tag == 'a' else '2010-01-01Z', title = f'times {tag}')
    ts.create_xml()
    b.add(ts.uuid, 'TimeSeries', f'times {tag}')
    p = c.reals(f'p{tag}', (3, 3), LO, HI)
    ps = rqs.PointSet(m, title = f'points {tag}', crs_uuid = crs.uuid, points_array = p)
    ps.write_hdf5()
    ps.create_xml()
    b.add(ps.uuid, 'PointSetRepresentation', f'points {tag}', [crs.uuid])
    v = c.reals(f'v{tag}', 3, LO, HI)
    pr = rqp.Property.from_array(m, v, 'test', f'prop {tag}', ps.uuid, property_kind = 'length', indexable_element = 'nodes',
                                 uom = 'm', time_series_uuid = ts.uuid, time_index = 0)
    b.add(pr.uuid, 'ContinuousProperty', f'prop {tag}', [ps.uuid, ts.uuid])
    arrays[ps.uuid.int] = p
    arrays[pr.uuid.int] = v
    return b, arrays


def check_arrays(c, m, book, arrays, where):
    for i, a in arrays.items():
        if i not in book.obj:
            continue
        u = bu.uuid_from_int(i)
        if book.obj[i][0] == 'PointSetRepresentation':
            c.same(f'{where}: points', rqs.PointSet(m, uuid = u).full_array_ref(), a)
        else:
            c.same(f'{where}: property', rqp.Property(m, uuid = u).array_ref(), a)


LIMIT = [None]


def _pick(c, name, items):
    items = list(items)
    if LIMIT[0] is not None and len(items) > LIMIT[0]:
        items = items[:1] + items[1 - LIMIT[0]:]
    return items[c.fix(c.int(name, 0, len(items) - 1))]


def step(c, n, op, m, b, other, ob, arrays):
    order = list(b.obj)  # in order of creation
    if op == 'remove':
        free = [i for i in order if not b.referrers(i)]
        if free:
            i = _pick(c, f'remove{n}', free)
            m.remove_part(m.part_for_uuid(bu.uuid_from_int(i)))
            b.remove(i)
    elif op == 'relate':
        i = _pick(c, f'from{n}', order[:4] + order[7:8])
        j = _pick(c, f'to{n}', [k for k in order[1:6] if k != i] or [order[0]])
        if i != j:
            m.create_reciprocal_relationship_uuids(bu.uuid_from_int(i), 'sourceObject', bu.uuid_from_int(j),
                                                   'destinationObject')
            b.soft.add(frozenset((i, j)))
    elif op == 'reopen':
        m = _reopen(c, m)
    elif op == 'copy':
        i = _pick(c, f'copy{n}', [None] + [k for k in ob.obj])
        consolidate = c.fix(c.bool(f'consolidate{n}'))
        if i is None:
            m.copy_all_parts_from_other_model(other, consolidate = consolidate)
            new = set(ob.obj)
        else:
            got = m.copy_uuid_from_other_model(other, bu.uuid_from_int(i), consolidate = consolidate)
            c.same('copied uuid', got.int, i)
            new = ob.closure(i)
        for k in ob.obj:
            if k in new:
                b.obj.setdefault(k, ob.obj[k])
        for pair in ob.soft:
            if all(k in b.obj for k in pair) and (i is None or any(k in new for k in pair)):
                b.soft.add(pair)
    elif op == 'duplicate':
        i = _pick(c, f'dup{n}', [k for k in order if b.obj[k][0] in ('LocalDepth3dCrs', 'MdDatum', 'WellboreInterpretation')])
        u = bu.new_uuid()
        part = m.copy_part(bu.uuid_from_int(i), u)
        b.obj[u.int] = b.obj[i]
        c.same('copied part', part, m.part_for_uuid(u))
    elif op == 'add':
        kind = _pick(c, f'add{n}', ['MdDatum', 'BoundaryFeature', 'WellboreInterpretation'])
        if kind == 'MdDatum':
            crss = [k for k in order if b.obj[k][0] == 'LocalDepth3dCrs']
            if crss:
                u = bu.uuid_from_int(_pick(c, f'crs{n}', crss))
                md = rqw.MdDatum(m, crs_uuid = u, location = (1.0 + n, 0.0, -50.0), title = f'new {n}')
                md.create_xml()
                b.add(md.uuid, kind, f'new {n}', [u])
        elif kind == 'BoundaryFeature':
            f = rqo.BoundaryFeature(m, feature_name = f'new {n}')
            f.create_xml()
            b.add(f.uuid, kind, f'new {n}')
        else:
            wf = [k for k in order if b.obj[k][0] == 'WellboreFeature']
            if wf:
                u = bu.uuid_from_int(_pick(c, f'wf{n}', wf))
                wi = rqo.WellboreInterpretation(m, title = f'new {n}', is_drilled = False,
                                                wellbore_feature = rqo.WellboreFeature(m, uuid = u))
                wi.create_xml()
                b.add(wi.uuid, kind, f'new {n}', [u])
    return m


OPS = ('remove', 'relate', 'reopen', 'copy', 'duplicate', 'add')


def _history(c, ops):
    m = _model(c, 'm')
    b, arrays = populate(c, m, 'a')
    other = ob = None
    if 'copy' in ops:
        other = _model(c, 'o')
        ob, more = populate(c, other, 'b')
        arrays.update(more)
        us = list(ob.obj)
        other.create_reciprocal_relationship_uuids(bu.uuid_from_int(us[4]), 'sourceObject', bu.uuid_from_int(us[3]),
                                                   'destinationObject')
        ob.soft.add(frozenset((us[4], us[3])))
    verify(c, m, b, 'start')
    for n, op in enumerate(ops):
        m = step(c, n, op, m, b, other, ob, arrays)
        verify(c, m, b, f'after {n}')
    m = _reopen(c, m)
    verify(c, m, b, 'reopened')
    check_arrays(c, m, b, arrays, 'reopened')
    c.record('count', len(b.obj))


@case('C10', bounds = 'two operations on any of eight parts', params = [dict(a = a, b = b) for a in OPS for b in OPS])
def history(c, a, b):
    _history(c, (a, b))


@case('C10', bounds = 'three operations, three choices of part for each', tier = 'thorough', cost = 3,
      params = [dict(a = a, b = b, d = d) for a in ('remove', 'relate', 'copy', 'duplicate', 'add') for b in OPS
                for d in ('remove', 'copy', 'add', 'duplicate')])
def longer_history(c, a, b, d):
    LIMIT[0] = 3
    try:
        _history(c, (a, b, d))
    finally:
        LIMIT[0] = None


# ---------------------------------------------------------------- queries

TITLES = ('alpha', 'Alpha beta', 'BETA', 'the alpha')
MODES = ('is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain')


def _titled(c, fewer = False):
    m = _model(c, 'q')
    t = [c.fix(c.int(f't{i}', 0, 1 if fewer else len(TITLES) - 1)) for i in range(2)]
    titles = [TITLES[t[0]], TITLES[t[1]], 'Alpha beta', 'alphabet', 'gamma']
    objs = []
    for i, title in enumerate(titles[:3]):
        o = rqo.BoundaryFeature(m, feature_name = title, extra_metadata = {'k': 'v' if i == 1 else 'w', 'n': str(i)})
        o.create_xml(reuse = False)
        objs.append((o.uuid, 'BoundaryFeature', title, {'k': 'v' if i == 1 else 'w', 'n': str(i)}))
    crs = rqc.Crs(m, title = titles[3], extra_metadata = {'k': 'v'})
    crs.create_xml()
    objs.append((crs.uuid, 'LocalDepth3dCrs', titles[3], {'k': 'v'}))
    md = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (0.0, 0.0, 0.0), title = titles[4])
    md.create_xml()
    objs.append((md.uuid, 'MdDatum', titles[4], {}))
    # creation times that do not follow the order of the parts
    for (u, *_), when in zip(objs, (3, 1, 3, 2, 0)):
        node = rqet.find_nested_tags(m.root_for_uuid(u), ['Citation', 'Creation'])
        node.text = f'2020-01-0{when + 1}T00:00:00Z'
    stamps = dict(zip([o[0].int for o in objs], (3, 1, 3, 2, 0)))
    return m, objs, stamps


def _title_match(title, wanted, mode, sensitive):
    if not sensitive:
        title, wanted = title.lower(), wanted.lower()
    hit = {'is': title == wanted, 'start': title[:len(wanted)] == wanted,
           'end': title[-len(wanted):] == wanted, 'contain': title.find(wanted) >= 0}
    if mode == 'is not':
        return not hit['is']
    if mode.startswith('does not '):
        return not hit[mode[9:]]
    return hit[mode if mode == 'is' else mode[:-1]]


@case('C10', bounds = 'five parts with any of four titles', params = [dict(mode = x) for x in MODES])
def titles(c, mode):
    m, objs, _ = _titled(c)
    wanted = TITLES[c.fix(c.int('wanted', 0, 3))]
    sensitive = c.fix(c.bool('sensitive'))
    kind = c.choice('kind', [None, 'BoundaryFeature', 'obj_MdDatum'])
    expect = [o for o in objs if _title_match(o[2], wanted, mode, sensitive) and
              (kind is None or kind.replace('obj_', '') == o[1])]
    k = dict(obj_type = kind, title = wanted, title_mode = mode, title_case_sensitive = sensitive)
    c.same('uuids', [u.int for u in m.uuids(**k)], [o[0].int for o in expect])
    c.same('parts', m.parts(**k), [f'obj_{o[1]}_{o[0]}.xml' for o in expect])
    c.same('titles', m.titles(**k), [o[2] for o in expect])
    c.same('roots', [r.attrib['uuid'] for r in m.roots(**k)], [str(o[0]) for o in expect])
    few = m.parts()[1:4]
    c.same('from list', m.parts(parts_list = few, **k), [f'obj_{o[1]}_{o[0]}.xml' for o in expect if o in objs[1:4]])
    c.same('from no parts', m.parts(parts_list = [], **k), [])


@case('C10', bounds = 'five parts with any of four titles', params = [dict(how = h)
      for h in ('exception', 'none', 'first', 'oldest', 'newest')])
def single(c, how):
    m, objs, stamps = _titled(c)
    wanted = TITLES[c.fix(c.int('wanted', 0, 3))]
    expect = [o for o in objs if o[2].lower() == wanted.lower()]
    k = dict(title = wanted, multiple_handling = how)
    if len(expect) > 1 and how == 'exception':
        for f in (m.part, m.uuid, m.root, m.title):
            c.raises('several', lambda: f(**k), ValueError)
        return
    if not expect or (len(expect) > 1 and how == 'none'):
        for f in (m.part, m.uuid, m.root, m.title):
            c.check('none', f(**k) is None)
        return
    u = m.uuid(**k)
    if len(expect) == 1 or how == 'first':
        c.same('first', u, expect[0][0])
    else:
        best = (min if how == 'oldest' else max)(stamps[o[0].int] for o in expect)
        c.check('by time', u.int in [o[0].int for o in expect] and stamps[u.int] == best)
    c.same('part', m.part(**k), m.part_for_uuid(u))
    c.same('root', m.root(**k).attrib['uuid'], str(u))
    c.same('title', m.title(**k), [o[2] for o in expect if o[0] == u][0])


@case('C10', bounds = 'five parts with any of four titles', params = [dict(by = b)
      for b in ('newest', 'oldest', 'title', 'uuid', 'type', None)])
def sorting(c, by):
    m, objs, stamps = _titled(c, fewer = True)
    kind = c.choice('kind', [None, 'BoundaryFeature', 'PointSetRepresentation'])
    extra = c.choice('extra', [{}, {'k': 'v'}, {'k': 'w', 'n': '2'}, {'k': 'v', 'n': '2'}, {'z': 'v'}])
    related = c.choice('related', [None, 3, 4, 0])
    expect = [o for o in objs if (kind is None or o[1] == kind) and all(o[3].get(a) == b for a, b in extra.items())]
    if related is not None:
        expect = [o for o in expect if {objs[related][0], o[0]} == {objs[3][0], objs[4][0]}]
    k = dict(obj_type = kind, extra = extra, related_uuid = None if related is None else objs[related][0], sort_by = by)
    got = m.uuids(**k)
    c.same('members', sorted(u.int for u in got), sorted(o[0].int for o in expect))
    c.same('same parts', [m.uuid_for_part(p) for p in m.parts(**k)], got)
    c.same('same titles', m.titles(**k), [m.title(uuid = u) for u in got])
    if by in ('newest', 'oldest'):
        s = [stamps[u.int] for u in got]
        c.same('by time', s, sorted(s, reverse = by == 'newest'))
    elif by == 'title':
        s = [m.title(uuid = u) for u in got]
        c.same('by title', s, sorted(s))
    elif by == 'uuid':
        c.same('by uuid', [str(u) for u in got], sorted(str(u) for u in got))
    elif by == 'type':
        s = [m.type_of_uuid(u) for u in got]
        c.same('by type', s, sorted(s))
    else:
        c.same('as added', [u.int for u in got], [o[0].int for o in expect])
    # a part known by uuid
    i = 3 * c.fix(c.int('which', 0, 1))
    k['uuid'] = objs[i][0]
    c.same('by uuid', m.uuids(**k), [objs[i][0]] if objs[i] in expect else [])


@case('C10', bounds = 'metadata on one of three parts; part in a sub directory')
def metadata_and_place(c):
    m, objs, _ = _titled(c)
    u = bu.new_uuid()
    node = m.new_obj_node('BoundaryFeature')
    node.attrib['uuid'] = str(u)
    m.create_citation(root = node, title = 'placed')
    where = c.choice('where', ['sub', 'sub/deeper', None])
    m.add_part('obj_BoundaryFeature', u, node, epc_subdir = where)
    ask = c.choice('ask', ['sub', '/sub', 'sub/', 'sub/deeper', 'su'])
    got = m.uuids(epc_subdir = ask)
    inside = where is not None and (where + '/').startswith(ask.strip('/') + '/')
    c.same('in directory', [x.int for x in got], [u.int] if inside else [])
    if where is not None:
        m2 = _reopen(c, m)
        c.check('stored', m2.uuid_is_present(u) and m2.title(uuid = u) == 'placed')
        c.same('in directory again', [x.int for x in m2.uuids(epc_subdir = ask)], [u.int] if inside else [])
    # crs items held as simple metadata nodes
    flag = c.fix(c.bool('down'))
    crs = rqc.Crs(m, title = 'deep', z_inc_down = flag)
    crs.create_xml()
    crs0 = [o[0] for o in objs if o[1] == 'LocalDepth3dCrs'][0]
    got = m.uuids(obj_type = 'LocalDepth3dCrs', metadata = {'ZIncreasingDownward': 'false', 'VerticalUom': 'm'})
    c.same('metadata', [x.int for x in got], [] if flag else [crs.uuid.int])
    got = m.uuids(metadata = {'ZIncreasingDownward': 'true'})
    c.same('metadata true', [x.int for x in got], [crs0.int] + ([crs.uuid.int] if flag else []))


# ---------------------------------------------------------------- consolidation

def _shared(c, m, tag, offset, dates, mark, code):
    b = Book()
    crs = rqc.Crs(m, title = 'crs', x_offset = offset)
    crs.create_xml()
    b.add(crs.uuid, 'LocalDepth3dCrs', 'crs')
    ts = rqts.TimeSeries(m, first_timestamp = dates[0], title = 'times')
    for d in dates[1:]:
        ts.add_timestamp(d)
    ts.create_xml()
    b.add(ts.uuid, 'TimeSeries', 'times')
    wf = rqo.WellboreFeature(m, feature_name = 'well', extra_metadata = {'mark': mark} if mark else {})
    wf.create_xml()
    b.add(wf.uuid, 'WellboreFeature', 'well')
    wi = rqo.WellboreInterpretation(m, title = 'interp', wellbore_feature = wf, is_drilled = True)
    wi.create_xml()
    b.add(wi.uuid, 'WellboreInterpretation', 'interp', [wf.uuid])
    lookup = rqp.StringLookup(m, int_to_str_dict = {0: 'shale', code: 'sand'}, title = 'facies')
    lookup.create_xml()
    b.add(lookup.uuid, 'StringTableLookup', 'facies')
    md = rqw.MdDatum(m, crs_uuid = crs.uuid, location = (0.0, 0.0, 0.0 if tag == 'a' else 5.0), title = 'datum')
    md.create_xml()
    b.add(md.uuid, 'MdDatum', 'datum', [crs.uuid])
    p = c.reals(f'p{tag}', (2, 3), LO, HI)
    ps = rqs.PointSet(m, title = 'points', crs_uuid = crs.uuid, points_array = p)
    ps.write_hdf5()
    ps.create_xml()
    b.add(ps.uuid, 'PointSetRepresentation', 'points', [crs.uuid])
    v = c.ints(f'v{tag}', 2, 0, 1)
    pr = rqp.Property.from_array(m, v, 'test', 'facies', ps.uuid, property_kind = 'facies', indexable_element = 'nodes',
                                 discrete = True, string_lookup_uuid = lookup.uuid, time_series_uuid = ts.uuid,
                                 time_index = 0)
    kind = m.uuid(obj_type = 'PropertyKind')
    b.add(kind, 'PropertyKind', 'facies')
    b.add(pr.uuid, 'CategoricalProperty', 'facies', [ps.uuid, ts.uuid, lookup.uuid, kind])
    ids = dict(crs = crs.uuid, ts = ts.uuid, wf = wf.uuid, wi = wi.uuid, lookup = lookup.uuid, md = md.uuid, ps = ps.uuid,
               pr = pr.uuid, kind = kind)
    return b, ids, {ps.uuid.int: p, pr.uuid.int: v}


DATES = (('2000-01-01T00:00:00Z', '2001-06-01T00:00:00Z'), ('2000-01-01T00:00:00Z', '2001-06-02T00:00:00Z'),
         ('2000-01-01T00:00:00Z',))


@case('C10', bounds = 'two models of nine parts; any crs offsets (equal or apart), dates, extra metadata and lookup codes',
      params = [dict(how = h, reopened = r) for h in ('all', 'md', 'pr', 'wi', 'apart') for r in (False, True)])
def consolidation(c, how, reopened):
    dx = c.fix(c.int('offset', 0, 1))
    x = c.real('x', -500, 500)
    when = c.fix(c.int('when', 0, 2))
    marked = c.fix(c.bool('marked'))
    code = 1 + c.fix(c.int('code', 0, 1))
    a = _model(c, 'a')
    ba, ia, xa = _shared(c, a, 'a', x, DATES[0], None, 1)
    b = _model(c, 'b')
    bb, ib, xb = _shared(c, b, 'b', x + 3 * dx, DATES[when], 'm' if marked else None, code)
    if reopened:
        a, b = _reopen(c, a), _reopen(c, b)
    equal = {'kind': True, 'crs': dx == 0, 'ts': when == 0, 'wf': not marked, 'wi': not marked, 'lookup': code == 1}
    if how == 'apart':
        equal = {}
    swap = {ib[k].int: ia[k].int for k in equal if equal[k]}
    if how in ('all', 'apart'):
        a.copy_all_parts_from_other_model(b, consolidate = how == 'all')
        new = set(bb.obj)
    else:
        got = a.copy_uuid_from_other_model(b, ib[how])
        c.same('copied', got.int, swap.get(ib[how].int, ib[how].int))
        new = bb.closure(ib[how].int)
    for i in new:
        if i not in swap:
            kind, title, refs = bb.obj[i]
            ba.obj[i] = (kind, title, frozenset(swap.get(r, r) for r in refs))
    xa.update(xb)
    verify(c, a, ba, 'consolidated')
    if how != 'apart':
        c.check('map', all(swap.get(k) == v for k, v in a.consolidation.map.items()))
        a.consolidation.check_map_integrity()
    check_arrays(c, a, ba, xa, 'consolidated')
    a2 = _reopen(c, a)
    verify(c, a2, ba, 'stored')
    check_arrays(c, a2, ba, xa, 'stored')
    if ib['md'].int in ba.obj:
        md = rqw.MdDatum(a2, uuid = ib['md'])
        crs = rqc.Crs(a2, uuid = md.crs_uuid)
        c.close('crs of datum', crs.x_offset, x + 3 * dx, 0.001)
    verify(c, b, bb, 'source')


@case('C10', bounds = 'any ages in two geologic time series, or one beside a normal time series')
def consolidation_ages(c):
    a, b = _model(c, 'a'), _model(c, 'b')
    ages = [c.int(f'age{i}', 1000, 10**8) for i in range(2)]
    later = [c.int(f'later{i}', 1, 500) for i in range(2)]
    books, series = [], []
    human = c.choice('human', ['neither', 'resident', 'immigrant'])
    for i, m in enumerate((a, b)):
        book = Book()
        if human == ('resident', 'immigrant')[i]:
            ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01Z', title = 'times')
            ts.add_timestamp('2001-01-01Z')
        else:
            ts = rqts.GeologicTimeSeries.from_year_list(m, [ages[i], ages[i] - later[i]], title = 'times')
        ts.create_xml()
        book.add(ts.uuid, 'TimeSeries', 'times')
        books.append(book)
        series.append(ts)
    a.copy_all_parts_from_other_model(b)
    same = human == 'neither' and c.fix(c.And(ages[0] == ages[1], later[0] == later[1]))
    if not same:
        books[0].obj.update(books[1].obj)
    verify(c, a, books[0], 'ages')
    for i, ts in enumerate(series):
        if i == 1 and same:
            continue
        again = rqts.any_time_series(a, uuid = ts.uuid)
        c.same('timeframe', again.timeframe, ts.timeframe)
        for x, y in zip(again.timestamps, ts.timestamps):
            c.same('timestamp', x, y)


@case('C10', bounds = 'forced equivalence of datum and feature')
def forced(c):
    a, b = _model(c, 'a'), _model(c, 'b')
    ba, ia, xa = _shared(c, a, 'a', 0.0, DATES[0], None, 1)
    bb, ib, xb = _shared(c, b, 'b', 50.0, DATES[1], 'm', 2)
    force = [k for k in ('wf', 'crs', 'lookup') if c.fix(c.bool(f'force_{k}'))]
    for k in force:
        a.force_consolidation_uuid_equivalence(ib[k], ia[k] if k != 'crs' else str(ia[k]))
    swap = {ib[k].int: ia[k].int for k in force}
    swap[ib['kind'].int] = ia['kind'].int
    order = c.choice('order', ['all', 'pr then all', 'wi then md'])
    if order == 'all':
        a.copy_all_parts_from_other_model(b)
        new = set(bb.obj)
    elif order == 'pr then all':
        a.copy_uuid_from_other_model(b, ib['pr'])
        a.copy_all_parts_from_other_model(b)
        new = set(bb.obj)
    else:
        a.copy_uuid_from_other_model(b, ib['wi'])
        a.copy_uuid_from_other_model(b, ib['md'])
        new = bb.closure(ib['wi'].int) | bb.closure(ib['md'].int)
    # (the immigrant interpretation is not equivalent as the features differ in metadata, even when those are forced)
    for i in new:
        if i not in swap:
            kind, title, refs = bb.obj[i]
            ba.obj[i] = (kind, title, frozenset(swap.get(r, r) for r in refs))
    verify(c, a, ba, 'forced')
    xa.update(xb)
    check_arrays(c, a, ba, xa, 'forced')
