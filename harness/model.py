"""Checks the laws over a menu with TLC and replays the answers of the specification in the library."""

import itertools
import json
import os
import time

import core
import tables


def contents(menu):
    for pick in itertools.product(*[range(len(g)) for g in menu['groups']]):
        parts = [g[i] for g, i in zip(menu['groups'], pick)]
        yield pick, ''.join(p[0] for p in parts), ''.join(p[1] for p in parts)


def check_menu(menu, scratch, limit=600):
    """Returns (stats, first difference as a Job or None)."""
    started = time.time()
    chars = set()

    def data(t):
        chars.update(map(ord, t))
        return list(t.encode('utf8'))

    def pack(a):
        a = a if len(a) == 4 else (*a, *a)
        return {'aff': data(a[0]), 'dic': data(a[1]), 'caff': data(a[2]), 'cdic': data(a[3])}

    doc = {'law': menu['law'], 'groups': [[pack(a) for a in g] for g in menu['groups']],
           'words': [data(w) and core.cps(w) for w in menu['words']], 'sugs': [data(w) and core.cps(w) for w in menu['sugs']]}
    paths = {k: os.path.join(scratch, n) for k, n in (('VP_MENU', 'menu.json'), ('VP_VECTORS', 'vectors.csv'), ('VP_UNICODE', 'uni.json'))}
    with open(paths['VP_MENU'], 'w', encoding='ascii') as f:
        json.dump(doc, f, separators=(',', ':'))
    tables.write(paths['VP_UNICODE'], chars, ())
    code, out, (generated, distinct), ce = core.run_tlc('MC', scratch, paths, limit=limit)
    if code == 12:
        st = core.last_state(ce)
        pick = [i - 1 for i in st['pick']]
        raise core.CheckError(f"law {menu['law']} fails for {menu['name']}, choice {pick}, words "
                              + repr([core.text(w) for w in st['fails'][:10]]) + '\n'
                              + '\n'.join(''.join(g[i][k] for g, i in zip(menu['groups'], pick)) for k in (0, 1)))
    if code != 0:
        raise core.tlc_error('MC', out)
    vectors = {}
    with open(paths['VP_VECTORS'], encoding='ascii') as f:
        for line in f:
            pick, answers = line.rstrip('\n').split('#', 1)
            vectors[tuple(i - 1 for i in json.loads(json.loads(pick)))] = json.loads(json.loads(answers))
    tlc_s = time.time() - started
    job = core.Job()
    expected = []
    for pick, aff, dic in contents(menu):
        job.simple(aff, dic, menu['words'], menu['sugs'], note=f"{menu['name']} {pick}", per_scan=10 ** 6)
        expected.append(vectors.pop(pick))
    if vectors:
        raise core.CheckError('unexpected vectors')
    results = core.run_library(job, scratch)
    stats = {'law': menu['law'], 'name': menu['name'], 'dictionaries': len(job.files), 'states': distinct, 'transitions': generated - 1,
             'answers': 0, 'accepted': 0, 'suggestions': 0, 'tlc_s': round(tlc_s, 1), 'total_s': round(time.time() - started, 1)}
    for n, (exp, res) in enumerate(zip(expected, results)):
        if res is None:
            raise core.CheckError('not all of the dictionaries were opened')
        good = res[0]['k'] == 'done' and len(res) == len(job.runs[n])
        if good and menu['words']:
            good = res[1]['k'] == 'scan' and [int(v) for v in res[1]['v']] == exp['scan']
        if good:
            lists = res[2 if menu['words'] else 1:]
            good = all(r['k'] == 'list' for r in lists) and [r['v'] for r in lists] == exp['lists']
        if not good:
            return stats, job, n + 1
        stats['answers'] += len(exp['scan']) + len(exp['lists'])
        stats['accepted'] += sum(exp['scan'])
        stats['suggestions'] += sum(map(len, exp['lists']))
    return stats, job, None


def behaviours(module, menu, scratch, extra=(), workers=8, limit=600, chars=(), encodings=()):
    """Behaviours written by TLC for a menu: (list, stats)."""
    paths = {k: os.path.join(scratch, n) for k, n in (('VP_MENU', 'menu.json'), ('VP_VECTORS', 'vectors.csv'))}
    started = time.time()
    with open(paths['VP_MENU'], 'w', encoding='ascii') as f:
        json.dump(menu, f)
    if chars:
        paths['VP_UNICODE'] = os.path.join(scratch, 'uni.json')
        tables.write(paths['VP_UNICODE'], chars, encodings)
    if os.path.exists(paths['VP_VECTORS']):
        os.unlink(paths['VP_VECTORS'])
    code, out, (generated, distinct), _ce = core.run_tlc(module, scratch, paths, workers=workers, limit=limit, extra=extra)
    if code != 0:
        raise core.tlc_error(module, out)
    found = []
    with open(paths['VP_VECTORS'], encoding='ascii') as f:
        for line in f:
            found.append(json.loads(json.loads(line)))
    return found, {'law': module, 'behaviours': len(found), 'states': distinct, 'transitions': max(0, generated - 1),
                   'tlc_s': round(time.time() - started, 1)}
