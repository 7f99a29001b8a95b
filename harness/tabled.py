"""Scenarios about the tables of an affix file, asked by themselves (C35)."""

import itertools

import analyses
import fixtures
import lookups
import suggestions
from core import cps
from gen import Affix, Dict, rword, subset


def asked_tables(menu):
    ws = [cps(w) for w in menu['words']]
    if menu['name'] == 'conversions':
        return [{'op': 'convs', 'slot': 1, 'ws': ws}]
    if menu['name'] == 'compound rules':
        sets = [[], [cps('A')], [cps('B')], [cps('A'), cps('B')]]
        qs = [list(q) for n in range(1, 4) for q in itertools.product(sets, repeat=n)] + [list(q) for q in itertools.product(sets[1:3], repeat=5)]
        return [{'op': 'rules', 'slot': 1, 'qs': qs}]
    if menu['name'] == 'patterns':
        return [{'op': 'patterns', 'slot': 1, 'qs': [[a, b] for a in ws for b in ws]}]
    return [{'op': 'made', 'slot': 1, 'w': w} for w in ws]


analyses.ASKED['C35'] = asked_tables


def c35(job, rng, n):
    def convs(words, sugs, _note):
        return [{'op': 'convs', 'slot': 1, 'ws': analyses.sampled(rng, words + sugs, 30)}]

    def made(words, sugs, _note):
        ws = analyses.sampled(rng, [w for w in words + sugs if w], 5)
        return [{'op': 'made', 'slot': 1, 'w': w} for w in ws]

    analyses.rewritten(job, rng, [(lookups.c08, n // 3), (suggestions.c15, n // 6), (fixtures.suggests, n // 10)], convs)
    analyses.rewritten(job, rng, [(lookups.c01, n // 3), (suggestions.c16, n // 4), (fixtures.scans, n // 8)], made)
    for _ in range(n // 2):
        rules(job, rng)
        patterns(job, rng)


def rules(job, rng):
    fmt = rng.choice(['short', 'short', 'long', 'num'])
    flags = {'short': list('ABab1.+)'), 'long': rng.choice([['AA', 'AB', 'BA', 'BB', 'A1'], ['A.', 'AB', '+A', 'A|', '[]']]),
             'num': ['1', '11', '112', '2', '21', '12']}[fmt]
    flags = rng.sample(flags, rng.randint(1, min(5, len(flags))))
    rows = []
    for _k in range(rng.randint(1, 4)):
        items = [(rng.choice(flags), rng.choice(['', '', '*', '?'])) for _m in range(rng.randint(1, 5))]
        rows.append([(f, q) for f, q in items])
    d = Dict()
    if fmt != 'short':
        d.add('FLAG ' + fmt)
    d.table('COMPOUNDRULE', [''.join(f + q if fmt == 'short' else f'({f}){q}' for f, q in items) for items in rows])
    d.word('a', flags[0])
    qs = []
    for _k in range(25):
        items, q = rng.choice(rows), []
        for f, times in items:                          # mostly along a rule
            for _m in range({'': 1, '*': rng.choice([0, 1, 2, 3]), '?': rng.choice([0, 1])}[times] if rng.random() < 0.95 else rng.randint(0, 2)):
                q.append(sorted({f, *subset(rng, flags, 0.2)}) if rng.random() < 0.95 else subset(rng, flags + ['zz'], 0.5))
        q = q[:rng.choice([len(q), len(q), rng.randint(1, 7)])][:7]
        if q:
            qs.append([[cps(f) for f in fs] for fs in q])
    if qs:
        f = job.file(d.aff(), d.dic())
        job.run([{'op': 'open', 'slot': 1, 'file': f}, {'op': 'rules', 'slot': 1, 'qs': qs}], 'compound rules')


def patterns(job, rng):
    letters = rng.choice(['ab', 'abc', 'aé'])
    d = Dict()

    def side():
        stem = rng.choice(['0', rword(rng, letters, 1, 1), rword(rng, letters, 1, 1), rword(rng, letters, 2, 3), ''])
        return stem + rng.choice(['', '', '/A', '/B', '/S', '/P']) or '0'

    d.add(*subset(rng, ['NEEDAFFIX N', 'COMPOUNDFLAG F', 'COMPOUNDMIN 1'], 0.4))
    d.table('CHECKCOMPOUNDPATTERN', [f'{side()} {side()}' + rng.choice(['', '', ' ' + rword(rng, letters, 1, 2)]) for _k in range(rng.randint(1, 4))])
    for kind, flag in (('SFX', 'S'), ('PFX', 'P')):
        if rng.random() < 0.7:
            d.affixes(kind, flag, rng.random() < 0.7, [Affix(kind, flag, True, rng.choice(['', '', rng.choice(letters)]), rword(rng, letters, 1, 2), '.',
                                                             rng.choice(['', '', 'A', 'B', 'N', 'S', 'P'])) for _m in range(rng.randint(1, 2))])
    stems = [rword(rng, letters, 1, 3) for _k in range(rng.randint(1, 4))]
    for s in stems:
        d.word(s, ''.join(subset(rng, 'ABSPNF', 0.4)))
    ws = stems + [rng.choice(['', rng.choice(letters)]) + s + rng.choice(['', rng.choice(letters), rword(rng, letters, 2, 2)]) for s in stems * 3]
    qs = [[cps(rng.choice(ws)), cps(rng.choice(ws))] for _k in range(30)]
    f = job.file(d.aff(), d.dic())
    job.run([{'op': 'open', 'slot': 1, 'file': f}, {'op': 'patterns', 'slot': 1, 'qs': qs}], 'patterns')
