"""Copy of the shipped optical constants, parsed without meent -> data/nk.npz, data/nk.json.  Run once, committed."""
import json
import os

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    """(header dict, rows or None) of one text table"""
    head, rows = {}, []
    with open(path, encoding='utf-8') as fh:
        fh.readline()
        for line in fh:
            if line.startswith('#'):
                k, v = line[1:].split(':', 1)
                head[k.strip()] = v.strip()
            elif line.strip():
                rows.append([float(t) for t in line.split()])
    return head, np.array(rows)


def main():
    tables, specs = {}, {}
    for d, _, files in os.walk('/repo/meent/nk_data'):
        for f in files:
            if not f.endswith('.txt'):
                continue
            head, rows = parse(os.path.join(d, f))
            if 'coefficients' in head:
                lo, hi = head['range'].split(' - ')
                specs[f[:-4]] = dict(type=head['type'], coefficients=[float(t) for t in head['coefficients'].split()],
                                     range=[float(lo), float(hi.split()[0])], source=head.get('source', ''),
                                     conditions=head.get('conditions', ''))
            else:
                tables[f[:-4]] = rows
                specs[f[:-4]] = dict(type='table', source=head.get('source', ''), conditions=head.get('conditions', ''))
    np.savez_compressed(os.path.join(ROOT, 'data', 'nk.npz'), **tables)
    with open(os.path.join(ROOT, 'data', 'nk.json'), 'w') as fh:
        json.dump(specs, fh, indent=0, sort_keys=True)
    print(len(tables), len(specs))


if __name__ == '__main__':
    main()
