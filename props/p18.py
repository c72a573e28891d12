"""P18 material lookup: names give the tabulated index, interpolated, as n - ik, on every backend."""
import contextlib
import importlib
import io
import json
import os
import re
import shutil
import tempfile
import warnings

from .common import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_shipped = {}
MODS = {0: 'meent.on_numpy.modeler.modeling', 1: 'meent.on_jax.modeler.modeling', 2: 'meent.on_torch.modeler.modeling'}


def mod(b):
    return importlib.import_module(MODS[b])


def ctype(b, single):
    lib = importlib.import_module({0: 'numpy', 1: 'jax.numpy', 2: 'torch'}[b])
    return lib.complex64 if single else lib.complex128


def shipped():
    if not _shipped:
        z = np.load(os.path.join(HERE, 'data', 'nk.npz'))
        with open(os.path.join(HERE, 'data', 'nk.json')) as fh:
            spec = json.load(fh)
        for k, v in spec.items():
            _shipped[k] = dict(v, rows=z[k] if k in z else None)
    return _shipped


def tabulated(rows, wl):
    """own linear interpolation, clamped; returns n - ik"""
    x = rows[:, 0]
    out = []
    for w in np.ravel(wl):
        if w <= x[0]:
            v = rows[0, 1:3]
        elif w >= x[-1]:
            v = rows[-1, 1:3]
        else:
            j = int(np.argmax(x > w))
            f = (w - x[j - 1]) / (x[j] - x[j - 1])
            v = rows[j - 1, 1:3] * (1 - f) + rows[j, 1:3] * f
        out.append(complex(v[0], -v[1]))
    return np.array(out).reshape(np.shape(wl))


def sellmeier(kind, c, wl):
    w2 = np.asarray(wl) ** 2
    e = 1 + c[0]
    for B, C in zip(c[1::2], c[2::2]):
        e = e + B / (1 - (C * C if kind == 1 else C) / w2)
    return np.sqrt(e) + 0j


def case_of(name, bits):
    return ''.join(ch.upper() if (bits >> (i % 13)) & 1 else ch.lower() for i, ch in enumerate(name))


def lookup(b, name, table, wl):
    """(value, warned)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        v = mod(b).find_nk_index(name, table, wl)
    return sim.arr(v), any(issubclass(r.category, UserWarning) and 'range' in str(r.message) for r in rec)


def query(case, table, entries, tol):
    b = case['b']
    hit = False
    for q in case['queries']:
        names = sorted(entries)
        name = names[q['i'] % len(names)]
        rows, lo, hi, f = entries[name]
        wl = np.array([lo + (hi - lo) * t for t in q['t']])
        wl = wl[wl > 0] if rows is not None else np.maximum(wl, 0.95 * lo)
        if len(wl) == 0:
            continue
        if name == 'Al2O3_querry-o':
            wl = np.where((wl > 3.88e-6) & (wl < 3.91e-6), 4e-6, wl)    # two rows of the published table are out of order
        if q['scalar']:
            wl = wl[0]
        elif q['two']:
            wl = wl.reshape(1, -1)
        want = f(wl)
        if not np.all(np.isfinite(want)):
            continue
        near = np.min(np.abs(np.ravel(wl)[:, None] / np.array([lo, hi]) - 1)) < 1e-6
        for suffix in ('', '__real'):
            got, warned = lookup(b, case_of(name, q['bits']) + suffix, table, wl)
            sim.close(f'{sim.BACK[b]} {name}{suffix} at {wl}', got, want.real if suffix else want, tol)
            out = bool(np.min(wl) < lo or np.max(wl) > hi)
            if not near and warned != out:
                raise Violation(f'{sim.BACK[b]} {name} at {wl}: range {lo} - {hi}, ' + ('no warning' if out else 'warned'))
        hit |= bool(np.any((wl > lo) & (wl < hi)))
    for bad in ('no such material', ''):
        try:
            v = mod(b).find_nk_index(bad, table, 1e-6)
        except Exception:                                              # noqa: BLE001
            continue
        raise Violation(f'{sim.BACK[b]}: material {bad!r} gave {v}')
    return hit


def entry_of(rows):
    return rows, rows[0, 0], rows[-1, 0], lambda wl: tabulated(rows, np.asarray(wl))


def spec_entry(kind, c, lo, hi):
    return None, lo, hi, lambda wl: sellmeier(kind, c, np.asarray(wl))


_tables = {}


def own_shipped(case):
    b = case['b']
    if b not in _tables:
        _tables[b] = mod(b).read_material_table()
    table = _tables[b]
    s = shipped()
    if not set(table) >= {k.upper() for k in s}:
        raise Violation(f'{sim.BACK[b]}: materials {sorted({k.upper() for k in s} - set(table))} are missing')
    entries = {}
    for k, v in s.items():
        if v['rows'] is not None:
            entries[k] = entry_of(v['rows'])
        elif v['type'].startswith('formula'):
            entries[k] = spec_entry(int(v['type'].split()[1]), v['coefficients'], *v['range'])
    hit = query(case, table, entries, 1e-9)
    return {'nontrivial': hit, 'labels': [sim.BACK[b]]}


def write(d, t):
    """one generated table file"""
    sub = os.path.join(d, *t['dir'])
    os.makedirs(sub, exist_ok=True)
    path = os.path.join(sub, t['name'] + ('.mat' if t['fmt'] == 'mat' else '.txt'))
    if t['fmt'] == 'mat':
        from scipy.io import savemat
        r = np.array(t['rows'])
        savemat(path, {'WL': r[:, :1], 'n': r[:, 1:2], 'k': r[:, 2:3]})
        return
    with open(path, 'w') as fh:
        fh.write('Wavelength(m)\tn\tk\n')
        for k, v in t['head'].items():
            fh.write(f'# {k}: {v}\n')
        if t['fmt'] == 'formula':
            fh.write(f'# type: formula {t["kind"]}\n# coefficients: {" ".join(repr(c) for c in t["c"])}\n'
                     f'# range: {t["range"][0]!r} - {t["range"][1]!r} m\n')
        else:
            if t['typed']:
                fh.write('# type: tabulated nk\n# range: 1.0000e-09 - 1.0000e+00 m\n')
            for r in t['rows']:
                fh.write('\t'.join(repr(v) for v in r) + '\n')


def own_dir(case):
    b = case['b']
    names = [t['name'].upper() for t in case['tables']]
    if len(set(names)) != len(names):
        raise Skip('name clash')
    d = tempfile.mkdtemp(prefix='nk-')
    try:
        if case['before']:
            # the directory held other data under the same names when it was last read
            for t in case['tables']:
                u = dict(t, rows=[[w, n + 0.25, k + 0.125] for w, n, k in t['rows']]) if t['fmt'] != 'formula' else dict(
                    t, c=[t['c'][0] + 0.125] + t['c'][1:])
                write(d, u)
            mod(b).read_material_table(d, ctype(b, case['single']))
            if b == 0:
                sim.meent().list_materials(d)
        for t in case['tables']:
            write(d, t)
        with open(os.path.join(d, 'README.md'), 'w') as fh:
            fh.write('not a table\n')
        table = mod(b).read_material_table(d, ctype(b, case['single']))
        listed, shown = None, io.StringIO()
        if b == 0:
            listed = sim.meent().list_materials(d)
            with contextlib.redirect_stdout(shown):
                sim.meent().print_materials(d)
    finally:
        shutil.rmtree(d)
    if sorted(table) != sorted(names):
        raise Violation(f'{sim.BACK[b]}: tables {sorted(table)} read where {sorted(names)} exist')
    entries = {}
    for t in case['tables']:
        entries[t['name']] = spec_entry(t['kind'], t['c'], *t['range']) if t['fmt'] == 'formula' else entry_of(np.array(t['rows']))
    if listed is not None:
        if [m['name'] for m in listed] != sorted(names):
            raise Violation(f'list_materials gave {[m["name"] for m in listed]}')
        by = {t['name'].upper(): t for t in case['tables']}
        for m in listed:
            t = by[m['name']]
            _, lo, hi, _ = entries[t['name']]
            sim.close(f'listed range of {m["name"]}', [m['wl_min'] / lo, m['wl_max'] / hi], [1., 1.], 1e-9)
            rows = [ln for ln in shown.getvalue().splitlines() if ln.split()[:1] == [m['name']]]
            if len(rows) != 1:
                raise Violation(f'{m["name"]} appears {len(rows)} times in the printed list')
            v = [float(x) for x in re.findall(r'[0-9.]+e[-+]?[0-9]+', rows[0][len(m['name']):])[:2]]
            sim.close(f'printed range of {m["name"]}', [v[0] / lo, v[1] / hi], [1., 1.], 1e-3)
            head = t['head'] if t['fmt'] != 'mat' else {}
            for k in ('source', 'conditions'):
                if m[k] != head.get(k, ''):
                    raise Violation(f'listed {k} of {m["name"]} is {m[k]!r}, the file says {head.get(k, "")!r}')
    hit = query(case, table, entries, 2e-5 if case['single'] else 1e-9)
    return {'nontrivial': hit and len(names) > 1, 'labels': [sim.BACK[b]] + sorted({t['fmt'] for t in case['tables']})}


def put(case):
    """put_refractive_index_in_ucell replaces each material number by that material's index"""
    b = case['b']
    m = sim.meent().call_mee(backend=b, period=[1e-6], wavelength=case['wl'], thickness=[1e-7])
    s = shipped()
    names = sorted(k for k, v in s.items() if v['rows'] is not None or v['type'].startswith('formula'))
    for mats, mask in case['rounds']:
        given, want = [], []
        for kind, i, n in mats:
            if kind == 'number':
                given.append(sim.number(n))
                want.append(complex(*n))
            elif kind == 'spec':
                c = [0.0, 1. + i % 3, 1e-7 * (1 + i % 2)]
                given.append({'formula': 1, 'coefficients': c, 'wavelength_range': (1e-7, 1e-3)})
                want.append(complex(sellmeier(1, c, case['wl'])))
            else:
                v = s[names[i % len(names)]]
                w = tabulated(v['rows'], case['wl']) if v['rows'] is not None else \
                    sellmeier(int(v['type'].split()[1]), v['coefficients'], case['wl'])
                real = kind == 'real name'
                given.append(case_of(names[i % len(names)], i) + ('__real' if real else ''))
                want.append(complex(w.real if real else w))
        cell = np.array(mask) % len(mats)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            frozen = cell.copy()
            got = sim.arr(m.put_refractive_index_in_ucell(cell, given, case['wl']))
        if not np.array_equal(cell, frozen):
            raise Violation('the pattern passed in was modified')
        sim.close(f'{sim.BACK[b]}: cell filled with {given}', got, np.array(want)[cell], 1e-9)
    return {'nontrivial': len({t[0] for t in mats}) > 1, 'labels': [sim.BACK[b]]}


@st.composite
def queries(draw):
    return draw(st.lists(st.fixed_dictionaries({
        'i': st.integers(0, 60), 't': st.lists(st.one_of(gen.num(0., 1.), gen.num(-0.5, 1.6)), min_size=1, max_size=3),
        'bits': st.integers(0, 8191), 'scalar': st.booleans(), 'two': st.booleans()}), min_size=1, max_size=5))


NAME = st.text('abcXYZ019_-[].', min_size=1, max_size=10).filter(lambda s: not s.startswith('.') and not s.endswith('__real'))
TEXT = st.text('abc XYZ:1,()-', max_size=15).map(str.strip)


@st.composite
def table(draw):
    fmt = draw(st.sampled_from(['txt', 'txt', 'mat', 'formula']))
    lo = draw(st.sampled_from([1e-7, 3.7e-7, 1.2e-6])) * draw(gen.num(1., 3.))
    t = {'fmt': fmt, 'name': draw(NAME), 'dir': draw(st.lists(st.sampled_from(['a', 'B', 'c d']), max_size=2)),
         'head': draw(st.dictionaries(st.sampled_from(['source', 'conditions', 'note', 'material']), TEXT, max_size=3)),
         'typed': draw(st.booleans())}
    if fmt == 'formula':
        t['kind'] = draw(st.sampled_from([1, 2]))
        t['c'] = [draw(gen.num(0., 0.5))]
        for _ in range(draw(st.integers(1, 3))):
            p = lo * draw(gen.num(0.1, 0.4))
            t['c'] += [draw(gen.num(0.1, 2.)), p if t['kind'] == 1 else p * p]
        t['range'] = [lo, lo * draw(gen.num(2., 9.))]
    else:
        n = draw(st.integers(2, 8))
        x = lo * np.cumsum([1.] + draw(st.lists(gen.num(0.01, 1.), min_size=n - 1, max_size=n - 1)))
        t['rows'] = [[float(v), draw(gen.num(0.1, 4.)), draw(gen.num(0., 6.))] for v in x]
    return t


@st.composite
def dirs(draw, backends):
    return {'b': draw(st.sampled_from(backends)), 'tables': draw(st.lists(table(), min_size=1, max_size=4)), 'queries': draw(queries()),
            'single': draw(st.integers(0, 3)) == 0, 'before': draw(st.integers(0, 3)) == 0}


@st.composite
def puts(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))

    def mask():
        return np.array(draw(st.lists(st.integers(0, 9), min_size=int(np.prod(shape)), max_size=int(np.prod(shape))))).reshape(shape).tolist()
    rounds = []
    for _ in range(draw(st.integers(1, 2))):
        mats = draw(st.lists(st.tuples(st.sampled_from(['name', 'real name', 'number', 'spec']), st.integers(0, 60),
                                   st.one_of(gen.index(lossy=True), st.sampled_from([[1., 0.], [2., 0.], [3., 0.], [0., -3.]]))).map(list),
                             min_size=1, max_size=4))
        rounds.append([mats, mask()])
    return {'b': draw(st.sampled_from([0, 2])), 'wl': draw(gen.num(4e-7, 3e-6)), 'rounds': rounds}


def ship(backends):
    return st.fixed_dictionaries({'b': st.sampled_from(backends), 'queries': queries()})


RELATIONS = [
    Relation('shipped', lambda s: ship([0, 2]), own_shipped, 1200, 20000, shards=2, rule='a wavelength inside the range of its table'),
    Relation('shipped-jax', lambda s: ship([1]), own_shipped, 60, 1000, shards=1, weight=10, rule='a wavelength inside the range of its table'),
    Relation('directory', lambda s: dirs([0, 2]), own_dir, 900, 15000, shards=3, rule='two tables or more, a wavelength inside the range'),
    Relation('directory-jax', lambda s: dirs([1]), own_dir, 40, 600, shards=1, weight=10, rule='two tables or more, a wavelength inside the range'),
    Relation('cell', lambda s: puts(), put, 500, 8000, shards=2, rule='materials of different kinds in one cell'),
]
ASSUMPTIONS = ['tables list ascending wavelengths; shipped values are compared with a copy of the published tables kept in data/']
