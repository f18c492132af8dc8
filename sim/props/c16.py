"""C16: the structure of a building is what its metadata say, whatever else is open."""
import json
import os

import bld as B
import core
import faults
import world as W
from core import Violation

ID = 'C16'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = ('a run opens, closes and reopens 1-3 generated datasets (which may share names, identifiers and device names, and may list the same metadata in another order), swaps mains, fails to open some, and asks 30 kinds of questions '
        'about wiring, mains, selections, appliances, labels and measurements in between; each answer is compared with what follows from the metadata of that dataset alone; non-trivial when two datasets were open or mains swapped; '
        'distinct by worlds and steps')
REAL = ['nilmtk (DataSet, Building, MeterGroup, ElecMeter, Appliance)', 'HDFDataStore', 'CSVDataStore', 'PyTables', 'HDF5']
STUB = ['nilm_metadata']
ASSUME = ['metadata follow the NILM metadata schema; an appliance on several meters is not on a site meter']
PROBES = ['two datasets open', 'same identifiers open', 'same device name, other device', 'mains swapped', 'disabled meter', 'several mains', 'nested group', 'submeter of a submeter', 'appliance not found', 'several appliances on a meter',
          'open failed', 'closed and opened again', 'metadata in another order', 'ambiguous', 'selection by room', 'csv', 'ground truth of another dataset']
SHRINK = ('ops', 'worlds', 'meters', 'multi', 'apps')
TYPES = ['fridge', 'kettle', 'television', 'light', 'washing machine', 'microwave']
CATS = {'fridge': ['cold', 'large'], 'kettle': ['cooking', 'small'], 'television': ['consumer electronics', 'small'], 'light': ['lighting', 'small'], 'washing machine': ['wet', 'large'], 'microwave': ['cooking', 'small']}
ON = {'fridge': 50, 'kettle': 2000, 'television': 10, 'light': 10, 'washing machine': 20, 'microwave': 200, 'electric oven': 100, 'tumble dryer': 10}
ROOMS = ['kitchen', 'lounge']
SYN = {'fridge': ['refrigerator'], 'television': ['TV', 'telly'], 'washing machine': ['washer'], 'microwave': ['microwave oven']}
CONTROL = {'fridge': ['thermostat'], 'washing machine': ['manual', 'timer']}
CONTROLS = ['manual', 'thermostat', 'timer']


def gen_world(rng, name):
    blds = []
    for b in sorted(rng.some([1, 2, 3, 11], 1, 2)):
        ms = []
        ids = rng.sample(range(1, 13), rng.randint(2, 7))
        n_site = rng.choice([1, 1, 1, 2])
        n_alt = rng.choice([0, 0, 1])
        tops = []
        for j, i in enumerate(ids):
            m = {'i': i, 'period': 6, 'max': rng.choice([6, 30]), 'data': {'t0': 0, 'n': 3, 'step': 6, 'gaps': [], 'jit': 0, 'cols': rng.choice([['pa'], ['pa', 'pr'], ['pp', 'v'], ['pa', 'ea']]), 'kind': 'rand', 'vseed': i}}
            if rng.chance(.5):
                m['dev'] = rng.choice(['D1', 'D2'])
            if j < n_site:
                m['site'] = True
            elif j < n_site + n_alt and len(ids) > n_site + n_alt:
                m['site'] = True
                m['disabled'] = True
            else:
                m['of'] = rng.choice([0, 0] + tops)
                tops.append(i)
                k = rng.weighted([(0, .5), (1, 4), (2, 1)])
                m['apps'] = [[t, rng.choice([1, 1, 1, 2])] for t in rng.sample(TYPES, k)]
                for a in m['apps']:
                    if rng.chance(.3):
                        a.append({'room': rng.choice(ROOMS)})
                    if rng.chance(.25):
                        a[2:] = [dict(a[2] if len(a) > 2 else {}, **rng.choice([{'on_power_threshold': 33}, {'nominal_consumption': {'on_power': 77}}, {'on_power_threshold': 7, 'nominal_consumption': {'on_power': 3}}]))]
                if k == 2:
                    m['apps'][1][2:] = [dict(m['apps'][1][2] if len(m['apps'][1]) > 2 else {}, dominant_appliance=True)]
            if rng.chance(.15):
                m['name'] = 'box %d' % i
            if rng.chance(.4):
                m['room'] = rng.choice(ROOMS)
            ms.append(m)
        seen = set()
        for m in ms:                       # meters with the same device have the same measurements
            if m.get('dev'):
                f = [x for x in ms if x.get('dev') == m['dev']][0]
                m['data']['cols'], m['max'], m['period'] = f['data']['cols'], f['max'], f['period']
        multi = []
        free = [m for m in ms if not m.get('site')]
        if len(free) >= 3 and rng.chance(.35):
            two = rng.sample(free, 2)
            for m in two:
                m['apps'] = []
            multi = [['electric oven' if rng.chance(.5) else 'tumble dryer', 1, [m['i'] for m in two]]]
        blds.append({'i': b, 'meters': ms, 'multi': multi, **({'unnamed': 1} if rng.chance(.3) else {})})
    for b in blds[1:]:
        for m in b['meters']:
            if m.get('dev'):
                f = [x for bb in blds for x in bb['meters'] if x.get('dev') == m['dev']][0]
                m['data']['cols'], m['max'], m['period'] = f['data']['cols'], f['max'], f['period']
    return {'name': name, 'tz': 'UTC', 'dtype': 'float64', 'buildings': blds, 'shuffle': rng.randint(1, 9999) if rng.chance(.4) else 0}


KINDS = ['members', 'mains', 'submeters', 'upstream', 'wiring', 'downstream', 'item', 'item id', 'item app', 'item dict', 'item mains', 'select', 'select apps', 'select list', 'select room', 'select category', 'select site', 'appliances', 'dominant',
         'label', 'columns', 'period', 'group columns', 'of ids', 'union', 'nested', 'building', 'matches', 'values', 'truth', 'instance', 'select device', 'from ids', 'rooms', 'description', 'threshold', 'long label', 'labels', 'groupby', 'select synonym', 'select exact', 'select control', 'select two', 'select on']


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    names = ['A']
    for _ in range(n - 1):
        names.append(rng.choice(['A', 'B', 'C']))
    worlds = [gen_world(rng, x) for x in names]
    if n > 1 and rng.chance(.4):           # the same dataset, in another file and another order
        worlds[1] = json.loads(json.dumps(worlds[0]))
        worlds[1]['name'] = names[1]
        worlds[1]['shuffle'] = rng.randint(1, 9999)
        if rng.chance(.6):                 # ... or a later edition of it, with other details
            worlds[1]['name'] = worlds[0]['name']
            for b in worlds[1]['buildings']:
                for m in b['meters']:
                    if rng.chance(.4):
                        m['room'] = rng.choice(ROOMS)
                    if rng.chance(.2):
                        m['name'] = 'unit %d' % m['i']
                    if m.get('of') and rng.chance(.5):
                        m['of'] = 0
                    for a in m.get('apps', []):
                        if rng.chance(.5):
                            a[2:] = [dict(a[2] if len(a) > 2 else {}, room=rng.choice(ROOMS))]
    ops = []
    for _ in range(rng.randint(8, 32)):
        k = rng.weighted([('q', 8), ('open', 2), ('close', .6), ('alt', 1), ('badopen', .5)])
        op = {'op': k, 'd': rng.randrange(n)}
        if k == 'q':
            w = worlds[op['d']]
            b = rng.choice(w['buildings'])
            op.update(q=rng.choice(KINDS), b=b['i'], m=rng.choice(b['meters'])['i'], o=rng.choice(b['meters'])['i'], t=rng.choice(TYPES + ['electric oven']), i=rng.choice([1, 1, 2]), room=rng.choice(ROOMS),
                      e=rng.randrange(n))
        elif k == 'alt':
            op['b'] = rng.choice(worlds[op['d']]['buildings'])['i']
        elif k == 'badopen':
            op['fault'] = {'site': '*', 'nth': rng.randint(1, 6), 'kind': rng.choice(['eio', 'hdf', 'mem', 'intr'])}
        ops.append(op)
    return {'worlds': worlds, 'ops': ops, 'fmt': [rng.weighted([('HDF', 6), ('CSV', 1)]) for _ in worlds]}


def valid(s):
    if not s['worlds'] or len(s['fmt']) < len(s['worlds']):
        return False
    for w in s['worlds']:
        if not w['buildings']:
            return False
        for b in w['buildings']:
            have = {m['i'] for m in b['meters']}
            if not any(m.get('site') and not m.get('disabled') for m in b['meters']):
                return False
            for m in b['meters']:
                if not m.get('site') and m.get('of') not in have | {0}:
                    return False
                if m['data']['n'] != 3 or not m['data']['cols']:
                    return False
            for x in b.get('multi', []):
                if len(x[2]) != 2 or not set(x[2]) <= have or any(m.get('apps') or m.get('site') for m in b['meters'] if m['i'] in x[2]):
                    return False
    for o in s['ops']:
        if o['d'] >= len(s['worlds']) or o.get('e', 0) >= len(s['worlds']):
            return False
        w = s['worlds'][o['d']]
        if 'b' in o:
            bs = [b for b in w['buildings'] if b['i'] == o['b']]
            if not bs:
                return False
            have = {m['i'] for m in bs[0]['meters']}
            if o['op'] == 'q' and not {o['m'], o['o']} <= have:
                return False
    return True


class Model:
    """What the metadata of one building say."""

    def __init__(self, w, b, md, ds):
        self.name = w['name']
        self.b = b['i']
        self.md = md
        self.devices = ds['meter_devices']
        self.meters = {i: m for i, m in md['elec_meters'].items()}
        self.groups = [tuple(a['meters']) for a in md['appliances'] if len(a['meters']) > 1]
        nested = {i for g in self.groups for i in g}
        self.disabled = {i for i, m in self.meters.items() if m.get('disabled') and i not in nested}
        self.singles = [i for i in self.meters if i not in nested and i not in self.disabled]
        self.apps = {i: [a for a in md['appliances'] if i in a['meters']] for i in self.meters}

    def site(self, i):
        return bool(self.meters[i].get('site_meter'))

    def mains(self):
        return sorted(i for i in self.singles if self.site(i))

    def members(self):
        return sorted([(i,) for i in self.singles] + [tuple(sorted(g)) for g in self.groups])

    def up(self, i):
        if self.site(i):
            return None
        of = self.meters[i]['submeter_of']
        return tuple(self.mains()) if of == 0 else (of,)

    def dev(self, i):
        return self.devices[self.meters[i]['device_model']]

    def swap(self):
        alt = {i for i in self.disabled if self.site(i)}
        if not alt:
            return False
        now = {i for i in self.singles if self.site(i)}
        self.singles = [i for i in self.singles if i not in now] + sorted(alt)
        self.disabled = (self.disabled - alt) | now
        return True

    def on(self, member):
        """The appliances of a member"""
        out = []
        for i in member:
            for a in self.apps[i]:
                if a not in out:
                    out.append(a)
        return out


STORES = []


def mem(x):
    """A meter or group as a sorted tuple of instances"""
    if x is None:
        return None
    if hasattr(x, 'meters'):
        return tuple(sorted(i for m in x.meters for i in mem(m)))
    STORES.append(x.store)
    return (x.instance(),)


def mems(g):
    return sorted(mem(m) for m in g.meters)


def app(a):
    return None if a is None else tuple(a.identifier) if hasattr(a, 'identifier') else (a['type'], a['instance'])


def answer(ds, op, other=None):
    from nilmtk import MeterGroup
    from nilmtk.elecmeter import ElecMeterID
    e = ds.buildings[op['b']].elec
    name = ds.metadata['name']
    q = op['q']
    mid = lambda i: ElecMeterID(i, op['b'], name)

    def one(i):
        for m in e.all_meters():
            for x in (m.meters if hasattr(m, 'meters') else [m]):
                if x.instance() == i:
                    return x
    m = one(op['m'])
    if q == 'members':
        return mems(e), sorted(mem(x) for x in e.disabled_meters)
    if q == 'mains':
        return mem(e.mains())
    if q == 'submeters':
        return mems(e.submeters())
    if q == 'upstream':
        return mem(m.upstream_meter())
    if q == 'wiring':
        return sorted((mem(a), mem(b)) for a, b in e.wiring_graph().edges())
    if q == 'downstream':
        return mems(e.meters_directly_downstream_of_mains())
    if q == 'item':
        return mem(e[op['m']])
    if q == 'item id':
        return mem(e[mid(op['m'])]), mem(e[(op['m'], op['b'], name)])
    if q == 'item app':
        return mem(e[op['t'], op['i']]) if op['i'] > 1 else mem(e[op['t']])
    if q == 'item dict':
        return mem(e[{'type': op['t'], 'instance': op['i'], 'building': op['b'], 'dataset': name}])
    if q == 'item mains':
        return mem(e[mid(0)])
    if q == 'select':
        return mems(e.select(instance=op['m'], building=op['b']))
    if q == 'select apps':
        return mems(e.select_using_appliances(type=op['t']))
    if q == 'select list':
        return sorted(set(mems(e.select_using_appliances(type=[op['t'], TYPES[op['i']]]))))
    if q == 'select room':
        return mems(e.select_using_appliances(room=op['room']))
    if q == 'select category':
        return mems(e.select_using_appliances(category=CATS.get(op['t'], ['cold'])[0]))
    if q == 'select synonym':
        return mems(e.select_using_appliances(type=SYN.get(op['t'], [op['t']])[-1]))
    if q == 'select exact':
        from nilmtk.appliance import Appliance
        Appliance.allow_synonyms = False
        try:
            return mems(e.select_using_appliances(type=(SYN.get(op['t'], [op['t']]) + [op['t']])[-1 if op['i'] == 1 else 0]))
        finally:
            Appliance.allow_synonyms = True
    if q == 'select control':
        return mems(e.select_using_appliances(control=CONTROLS[op['m'] % 3]))
    if q == 'select two':
        return mems(e.select_using_appliances(type=op['t'], instance=op['i']))
    if q == 'select on':
        return mems(e.select_using_appliances(on_power_threshold=ON[op['t']]))
    if q == 'select site':
        return mems(e.select(site_meter=True))
    if q == 'select device':
        return mems(e.select(device_model=m.metadata['device_model']))
    if q == 'appliances':
        return sorted(app(a) for a in e.appliances)
    if q == 'rooms':
        return sorted(app(a) + (a.metadata.get('room', ''), a.metadata['dataset'], a.metadata['building']) for a in m.appliances)
    if q == 'threshold':
        return m.on_power_threshold()
    if q == 'long label':
        return m.label(pretty=False)
    if q == 'labels':
        ms = [x for x in e.meters if not hasattr(x, 'meters')]
        return e.get_labels([x.identifier for x in ms], pretty=False) == [x.label(pretty=False) for x in ms]
    if q == 'groupby':
        g = e.submeters().groupby('type')
        return sorted((x.name, tuple(mems(x))) for x in g.meters)
    if q == 'description':
        return dict(ds.metadata).get('name'), m.metadata.get('room'), m.building(), m.dataset(), m.instance(), m.key
    if q == 'dominant':
        return app(m.dominant_appliance())
    if q == 'label':
        return m.label()
    if q == 'columns':
        return sorted(m.available_columns()), sorted(m.available_physical_quantities()), sorted(m.available_ac_types('power'))
    if q == 'period':
        return m.sample_period(), m.device['max_sample_period'], e.sample_period()
    if q == 'group columns':
        return sorted(e.available_physical_quantities()), sorted(e.available_ac_types('power')), sorted(e.available_ac_types(['power', 'energy']))
    if q == 'of ids':
        return mems(e.from_list([mid(op['m']), mid(op['o'])]))
    if q == 'from ids':
        return mems(e.from_list([m.identifier for m in e.meters]))
    if q == 'union':
        return mems(MeterGroup([m]).union(MeterGroup([one(op['o']), m])))
    if q == 'nested':
        return sorted(mem(x) for x in e.nested_metergroups())
    if q == 'building':
        return e.building(), e.dataset(), e.contains_meters_from_multiple_buildings(), len(ds.buildings), tuple(ds.buildings[op['b']].identifier)
    if q == 'matches':
        return e.matches({'instance': op['m']}), m.matches({'instance': op['m'], 'building': op['b'], 'dataset': name}), m.matches({'instance': op['m'], 'building': op['b'] + 100})
    if q == 'values':
        return sorted(x for x in e.submeters().values_for_appliance_metadata_key('type', only_consider_dominant_appliance=False))
    if q == 'instance':
        return sorted(i for x in e.instance() for i in (x if isinstance(x, tuple) else (x,)))
    if q == 'truth':          # the meters of another dataset with the same identifiers
        g = MeterGroup.from_other_metergroup(e, other.metadata['name'])
        return mems(g)
    raise AssertionError(q)


class Err(Exception):
    pass


def expected(mo, op, other=None):
    q = op['q']
    i = op['m']
    members = [tuple(m) for m in mo.members()]

    def pick(ms, ambiguous=True):
        if not ms:
            raise Err('KeyError')
        if len(ms) > 1:
            raise Err('Exception')
        return ms[0]

    def sel(ms):
        if not ms:
            raise Err('KeyError')
        return sorted(ms)
    if q == 'members':
        return members, sorted((i,) for i in mo.disabled)
    if q == 'mains':
        return tuple(mo.mains())
    if q == 'submeters':
        return [m for m in members if not any(mo.site(x) for x in m)]
    if q == 'upstream':
        return mo.up(i)
    if q in ('wiring', 'downstream'):
        edges = sorted((mo.up(x), (x,)) for m in members for x in m if mo.up(x))
        if q == 'wiring':
            return edges
        if not edges:
            raise Err('any')
        return sorted(b for a, b in edges if a == tuple(mo.mains()))
    if q == 'item':
        if i in mo.disabled:
            raise Err('KeyError')
        return (i,)
    if q == 'item id':
        if (i,) not in members:
            raise Err('KeyError')
        return (i,), (i,)
    if q == 'item app':
        return pick([m for m in members if any(app(a) == (op['t'], op['i']) for a in mo.on(m))])
    if q == 'item dict':
        return pick([m for m in members if any(app(a) == (op['t'], op['i']) for a in mo.on(m))])
    if q == 'item mains':
        return tuple(mo.mains())
    if q == 'select':
        return sel([m for m in members if i in m])
    if q == 'select apps':
        return sel([m for m in members if any(a['type'] == op['t'] for a in mo.on(m))])
    if q == 'select list':
        out = []
        for t in (op['t'], TYPES[op['i']]):
            out += sel([m for m in members if any(a['type'] == t for a in mo.on(m))])
        return sorted(set(out))
    if q == 'select room':
        return sel([m for m in members if any(a.get('room') == op['room'] for a in mo.on(m))])
    if q == 'select category':
        c = CATS.get(op['t'], ['cold'])[0]
        return sel([m for m in members if any(c in CATS.get(a['type'], {'electric oven': ['cooking', 'large'], 'tumble dryer': ['wet', 'large']}.get(a['type'])) for a in mo.on(m))])
    if q == 'select synonym':
        return sel([m for m in members if any(a['type'] == op['t'] for a in mo.on(m))])
    if q == 'select exact':
        return sel([m for m in members if any(a['type'] == op['t'] for a in mo.on(m))]) if op['i'] == 1 or op['t'] not in SYN else sel([])
    if q == 'select control':
        return sel([m for m in members if any(CONTROLS[op['m'] % 3] in CONTROL.get(a['type'], ['manual']) for a in mo.on(m))])
    if q == 'select two':
        return sel([m for m in members if any(app(a) == (op['t'], op['i']) for a in mo.on(m))])
    if q == 'select on':
        return sel([m for m in members if any(a.get('on_power_threshold', ON[a['type']]) == ON[op['t']] for a in mo.on(m))])
    if q == 'select site':
        return sel([m for m in members if any(mo.site(x) for x in m)])
    if q == 'select device':
        d = mo.meters[i]['device_model']
        return sel([m for m in members if any(mo.meters[x]['device_model'] == d for x in m)])
    if q == 'appliances':
        return sorted({app(a) for m in members for a in mo.on(m)})
    if q == 'rooms':
        return sorted(app(a) + (a.get('room', ''), mo.name, mo.b) for a in mo.apps[i])
    if q == 'threshold':
        return min([a.get('on_power_threshold', a.get('nominal_consumption', {}).get('on_power', ON[a['type']])) for a in mo.apps[i]] or [10])
    if q == 'long label':
        if mo.site(i):
            return 'SITE METER'
        if 'name' in mo.meters[i]:
            return mo.meters[i]['name']
        return ', '.join(('(%r, %d)' % app(a)).upper() if a.get('dominant_appliance') else '(%r, %d)' % app(a) for a in mo.apps[i])
    if q == 'labels':
        return True
    if q == 'groupby':
        subs = [m for m in members if not any(mo.site(x) for x in m)]
        if any(not mo.apps[x] for m in subs for x in m):
            raise Err('any')
        dom = lambda m: [x for x in mo.on(m) if x.get('dominant_appliance')] or mo.on(m)
        return sorted((t, tuple(m for m in subs if any(a['type'] == t for a in mo.on(m)))) for t in {dom(m)[0]['type'] for m in subs})
    if q == 'description':
        return mo.name, mo.meters[i].get('room'), mo.b, mo.name, i, mo.meters[i]['data_location']
    if q == 'dominant':
        a = mo.apps[i]
        d = [x for x in a if x.get('dominant_appliance')]
        return app(a[0]) if len(a) == 1 else app(d[0]) if d else app(a[0]) if a else None
    if q == 'label':
        m = mo.meters[i]
        a = mo.apps[i]
        d = [x for x in a if x.get('dominant_appliance')]
        s = m.get('name') or ('Site meter' if mo.site(i) else None) or ((d or a)[0]['type'] if a else '')
        return s[:1].upper() + s[1:]
    if q in ('columns', 'period', 'group columns'):
        def cols(j):
            return sorted({(m['physical_quantity'], m.get('type', '')) for m in mo.dev(j)['measurements']})
        if q == 'columns':
            return cols(i), sorted({c[0] for c in cols(i)}), sorted({c[1] for c in cols(i) if c[0] == 'power' and c[1]})
        flat = [x for m in members for x in m]
        if q == 'period':
            return mo.dev(i)['sample_period'], mo.dev(i)['max_sample_period'], max(mo.dev(x)['sample_period'] for x in flat)
        return (sorted({c[0] for x in flat for c in cols(x)}), sorted({c[1] for x in flat for c in cols(x) if c[0] == 'power' and c[1]}),
                sorted({c[1] for x in flat for c in cols(x) if c[0] in ('power', 'energy') and c[1]}))
    if q == 'of ids':
        if any((x,) not in members for x in (i, op['o'])):
            raise Err('KeyError')
        return sorted({(i,), (op['o'],)})
    if q == 'from ids':
        return members
    if q == 'union':
        return sorted({(i,), (op['o'],)})
    if q == 'nested':
        return sorted(tuple(sorted(g)) for g in mo.groups)
    if q == 'building':
        return mo.b, mo.name, False, None, (mo.b, mo.name)
    if q == 'matches':
        return any(i in m for m in members), True, False
    if q == 'values':
        return sorted({a['type'] for m in members if not any(mo.site(x) for x in m) for a in mo.on(m)})
    if q == 'instance':
        return sorted(x for m in members for x in m)
    if q == 'truth':
        if other is None:
            raise Err('KeyError')
        have = {x for m in other.members() for x in m} | other.disabled
        if any(x not in have for m in members for x in m):
            raise Err('KeyError')
        return members
    raise AssertionError(q)


def run(scn, ctx):
    plane = faults.PLANE
    plane.start(ctx)
    plane.seam_open = True
    paths = []
    mds = []
    for k, w in enumerate(scn['worlds']):
        p = ctx.path('d%d%s' % (k, '.h5' if scn['fmt'][k] == 'HDF' else ''))
        (W.write_hdf if scn['fmt'][k] == 'HDF' else W.write_csv)(w, p)
        paths.append(p)
        mds.append(W.metadata(w))
        if scn['fmt'][k] == 'CSV':
            ctx.probe('csv')
            # YAML is written in sorted order
    ctx.begin()
    ctx.data_s = 60
    devs = [{k: v for k, v in md[0]['meter_devices'].items()} for md in mds]
    if any(a.get(n) and b.get(n) and a[n] != b[n] for a in devs for b in devs for n in ('D1', 'D2')):
        ctx.probe('same device name, other device')
    ds = [None] * len(paths)
    models = [None] * len(paths)
    was = set()

    def opened(k):
        if ds[k] is None:
            ds[k] = B.open_dataset(paths[k], scn['fmt'][k])
            models[k] = {b['i']: Model(scn['worlds'][k], b, json_int(mds[k][1][b['i']]), mds[k][0]) for b in scn['worlds'][k]['buildings']}
            if k in was:
                ctx.probe('closed and opened again')
            was.add(k)
            ctx.check(sorted(ds[k].buildings) == sorted(models[k]), 'buildings', lambda: '%r, expected %r' % (sorted(ds[k].buildings), sorted(models[k])))

    def json_int(md):
        return md

    for n, op in enumerate(scn['ops']):
        k = op['d']
        ctx.step(*[op[x] for x in sorted(op) if x != 'fault'])
        if op['op'] == 'open':
            opened(k)
        elif op['op'] == 'close':
            if ds[k] is not None:
                ds[k].store.close()
                ds[k] = None
        elif op['op'] == 'badopen':
            plane.arm([dict(op['fault'])])
            try:
                x = B.open_dataset(paths[k], scn['fmt'][k])
            except BaseException as e:
                if isinstance(e, Violation) or not plane.fired:
                    raise
                ctx.probe('open failed')
            else:
                x.store.close()
            plane.disarm()
        elif op['op'] == 'alt':
            opened(k)
            e = ds[k].buildings[op['b']].elec
            try:
                e.use_alternative_mains()
                got = True
            except RuntimeError:
                got = False
            want = models[k][op['b']].swap()
            ctx.check(got == want, 'mains-swapped', lambda: 'step %d' % n)
            if got:
                ctx.probe('mains swapped')
                ctx.nontrivial = True
        else:
            opened(k)
            mo = models[k][op['b']]
            other = om = None
            if op['q'] == 'truth':
                opened(op['e'])
                other = ds[op['e']]
                om = models[op['e']].get(op['b'])
                # which of several open datasets of that name is meant cannot be told
                nm = scn['worlds'][op['e']]['name']
                if sum(w['name'] == nm for w in scn['worlds']) > 1:
                    continue
                ctx.probe('ground truth of another dataset')
            live = [x for x in range(len(ds)) if ds[x] is not None]
            if len(live) > 1:
                ctx.probe('two datasets open')
                ctx.nontrivial = True
                if len({scn['worlds'][x]['name'] for x in live}) < len(live):
                    ctx.probe('same identifiers open')
            if mo.disabled:
                ctx.probe('disabled meter')
            if mo.groups:
                ctx.probe('nested group')
            if len(mo.mains()) > 1:
                ctx.probe('several mains')
            if any(not mo.site(x) and mo.meters[x]['submeter_of'] for x in mo.meters):
                ctx.probe('submeter of a submeter')
            if any(len(a) > 1 for a in mo.apps.values()):
                ctx.probe('several appliances on a meter')
            if scn['worlds'][k].get('shuffle'):
                ctx.probe('metadata in another order')
            if op['q'] == 'select room':
                ctx.probe('selection by room')
            try:
                want = ('ok', expected(mo, op, om))
            except Err as e:
                want = ('error', str(e))
                ctx.probe('appliance not found' if str(e) == 'KeyError' else 'ambiguous')
            del STORES[:]
            try:
                got = ('ok', answer(ds[k], op, other))
                if op['q'] != 'truth' and any(s is not ds[k].store for s in STORES):
                    got = ('meters of another dataset', got[1])
            except Exception as e:
                if os.environ.get('SIM_STDERR'):
                    import traceback
                    traceback.print_exc()
                got = ('error', type(e).__name__)
            if op['q'] == 'building' and got[0] == 'ok':
                want = ('ok', want[1][:3] + (len(mds[k][1]),) + want[1][4:])
            if want == ('error', 'any') or (op['q'] == 'label' and op['m'] and not mo.apps[op['m']]):
                continue
            ctx.log(got)
            ctx.check(got == want, op['q'], lambda: 'step %d: %r of dataset %d\nanswer              %r\nfrom its metadata   %r' % (n, op, k, got, want))
    for k in range(len(ds)):
        if ds[k] is not None:
            ds[k].store.close()
