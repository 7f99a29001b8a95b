"""Scenarios about the documented objects behind a dictionary: C22-C28, C30; and about pairs of dictionaries: C29.

Dictionaries come from the scenarios of other properties and from a generator of entries with data; asked is what
lookuper, suggester, dic and aff tell about them.
"""

import itertools
import re

import core
import fixtures
import lookups
import sessions
import suggestions
from core import cps, text
from gen import Affix, Dict, mutate, rword, subset

# how the dictionaries of a menu are asked
ASKED = {
    'C22': lambda menu: [{'op': 'forms', 'slot': 1, 'ws': [cps(w) for w in menu['words']], 'opt': ALL}],
    'C23': lambda menu: [{'op': 'checks', 'slot': 1, 'ws': [cps(w) for w in menu['words']], 'opt': {'cap': c, 'nosug': s}}
                         for c in (True, False) for s in (True, False)],
    'C24': lambda menu: [{'op': 'entries', 'slot': 1}, {'op': 'homonyms', 'slot': 1, 'ws': [cps(w) for w in menu['words']]}],
    'C25': lambda menu: [{'op': 'options', 'slot': 1}],
    'C26': lambda menu: [{'op': 'kinds', 'slot': 1, 'w': cps(w)} for w in menu['sugs']],
    'C27': lambda menu: [{'op': 'casing', 'slot': 1, 'ws': [cps(w) for w in menu['words']]}],
    'C28': lambda menu: [{'op': 'edits', 'slot': 1, 'w': cps(w)} for w in menu['sugs']],
    'C30': lambda menu: [{'op': 'near', 'slot': 1, 'w': cps(w), 'known': k} for w in menu['sugs'] for k in ([], [cps(w)])],
}
ALL = {'cap': True, 'nosug': True, 'aff': True, 'comp': True}
OPTIONS = [{'cap': c, 'nosug': n, 'aff': a, 'comp': p} for c in (True, False) for n in (True, False)
           for a, p in ((True, True), (True, False), (False, True))]


def rewritten(job, rng, sources, make):
    """Takes dictionaries and words of other scenarios: sources are (scenarios, number)."""
    for source, n in sources:
        other = core.Job()
        source(other, rng, n)
        job.encodings |= other.encodings
        job.chars |= other.chars
        for run, note in zip(other.runs, other.notes):
            opens = [ev['file'] for ev in run if ev['op'] == 'open' and ev['file'] not in other.opaque]
            if not opens:
                continue
            words = [w for ev in run for w in ev.get('ws', [])]
            sugs = [ev['w'] for ev in run if ev['op'] == 'suggest']
            for f in dict.fromkeys(opens[:2]):
                job.files.append(other.files[f - 1])
                evs = make(words, sugs, note)
                if evs:
                    job.run([{'op': 'open', 'slot': 1, 'file': len(job.files)}] + evs, note)


def sampled(rng, items, n):
    seen = {}
    for w in items:
        seen.setdefault(tuple(w), w)
    items = list(seen.values())
    return items if len(items) <= n else rng.sample(items, n)


# --- C22: readings ---------------------------------------------------------------------------------
def c22(job, rng, n):
    def make(words, sugs, _note):
        ws = sampled(rng, [w for w in words if len(w) <= 7], 45)
        evs = [{'op': 'forms', 'slot': 1, 'ws': ws, 'opt': ALL}]
        if rng.random() < 0.5:
            evs.append({'op': 'forms', 'slot': 1, 'ws': sampled(rng, ws, 15), 'opt': rng.choice(OPTIONS)})
        return evs
    rewritten(job, rng, [(lookups.c01, n // 3), (lookups.c02, n // 5), (lookups.c03, n // 8), (lookups.c04, n // 8), (lookups.c05, n // 8),
                         (lookups.c06, n // 8), (lookups.c07, n // 6), (fixtures.scans, n // 8)], make)
    for _ in range(n // 6):       # several entries and several affix rules for one text
        d = Dict()
        d.add(*subset(rng, ['COMPLEXPREFIXES', 'NEEDAFFIX N', 'COMPOUNDMIN 1', 'COMPOUNDFLAG F', 'NOSUGGEST ~', 'FORBIDDENWORD !'], 0.5))
        for s in ('a', 'ab', 'aba', 'a', 'ba', 'Ab'):
            if rng.random() < 0.6:
                d.word(s, ''.join(subset(rng, 'SPTQF~N', 0.45) + subset(rng, '!', 0.1)))
        for kind, f in (('SFX', 'S'), ('PFX', 'P'), ('SFX', 'T'), ('PFX', 'Q')):
            cross = rng.random() < 0.8
            d.affixes(kind, f, cross, [Affix(kind, f, cross, rng.choice(['', '', 'a', 'b']), rword(rng, 'ab', 0, 2),
                                             rng.choice(['.', '.', '[ab]', '[^b]', 'a', 'ba']), ''.join(subset(rng, 'SPTQFN', 0.3) + subset(rng, '!', 0.1)))
                                       for _k in range(rng.randint(1, 3))])
        ws = [cps(w) for w in lookups.pick_words(rng, d.forms(rng, 60, 3), 'ab', 50)]
        job.chars.update(map(ord, 'abAB'))
        ws += [cps(w.upper()) for w in ('ab', 'aba', 'baa')] + [cps('Ab'), cps('Abab')]
        f = job.file(d.aff(), d.dic())
        job.run([{'op': 'open', 'slot': 1, 'file': f}, {'op': 'forms', 'slot': 1, 'ws': ws, 'opt': ALL},
                 {'op': 'forms', 'slot': 1, 'ws': sampled(rng, ws, 15), 'opt': rng.choice(OPTIONS)}], 'many readings')


# --- C23: options of the checker ---------------------------------------------------------------------
def c23(job, rng, n):
    def make(words, sugs, _note):
        ws = sampled(rng, words + sugs, 90)
        return [{'op': 'checks', 'slot': 1, 'ws': ws, 'opt': {'cap': c, 'nosug': s}} for c, s in
                ((False, False), (False, True), (True, False), (True, True))]
    rewritten(job, rng, [(lookups.c02, n // 8), (lookups.c03, n // 8), (lookups.c04, n // 10), (lookups.c05, n // 4), (lookups.c06, n // 6),
                         (lookups.c08, n // 5), (fixtures.scans, n // 8)], make)
    for _ in range(n // 3):
        d = Dict()
        d.add('NOSUGGEST ~', *subset(rng, ['COMPOUNDMIN 1', 'COMPOUNDFLAG F', 'KEEPCASE K', 'FORBIDDENWORD !', 'FORCEUCASE U',
                                           'BREAK 2|BREAK -|BREAK x', 'COMPOUNDRULE 1|COMPOUNDRULE RR', 'CHECKSHARPS'], 0.45))
        d.lines = [x for line in d.lines for x in line.split('|')]
        stems = [rword(rng, 'ab', 1, 3) for _k in range(rng.randint(2, 5))]
        for s in stems:
            t = rng.choice([s, s, s.capitalize(), s.upper(), s + 'B', 'a-' + s, s + 'ß'])
            d.word(t, ''.join(subset(rng, '~FKSP!UR', 0.25)))
        d.affixes('SFX', 'S', True, [Affix('SFX', 'S', True, '', rng.choice('ab'), '.', rng.choice(['', '', '~', 'F']))])
        d.affixes('PFX', 'P', True, [Affix('PFX', 'P', True, '', rng.choice('ab'), '.', rng.choice(['', '', '~', 'F']))])
        forms = d.forms(rng, 25, 1)
        ws = list(forms)
        for _k in range(30):
            ws.append(rng.choice(['', '-', 'x', '', '1']).join(rng.choice(forms) for _j in range(rng.randint(1, 3))))
        ws += [lookups.random_case(rng, w) for w in ws[:40]]
        ws = [w for w in dict.fromkeys(ws) if len(w) < 10]
        job.chars.update(c for w in ws for x in (w, w.upper(), w.lower()) for c in map(ord, x))
        f = job.file(d.aff(), d.dic())
        job.run([{'op': 'open', 'slot': 1, 'file': f}] +
                [{'op': 'checks', 'slot': 1, 'ws': [cps(w) for w in ws], 'opt': {'cap': c, 'nosug': s}} for c, s in
                 ((True, False), (False, False), (False, True), (True, True))], 'options')


# --- C24: entries --------------------------------------------------------------------------------------
TAGS = ['po:noun', 'is:plural', 'st:ab', 'al:x', 'ph:aab', 'ph:ba*', 'ph:bb->ab', 'ds:a:b', 'ts:0', 'ph:abab', 'ph:', 'fr', 'hy:a=b', '::', 'x:1', 'PO:x', 'Is:y',
        'po:verb', 'st:b']


def entry_dict(rng):
    """Entries in all the notations of a line."""
    lines = ['SET UTF-8']
    fmt = rng.choice(['', 'long', 'num', 'UTF-8'])
    if fmt:
        lines.append('FLAG ' + fmt)
    sep = ',' if fmt == 'num' else ''
    pool = {'': list('ABCx1'), 'long': ['Aa', 'Ab', 'bA', '12'], 'num': ['1', '12', '999', '65000'], 'UTF-8': list('Aéж1')}[fmt]
    af = []
    if rng.random() < 0.3:
        af = [subset(rng, pool, 0.5) or [pool[0]] for _ in range(rng.choice([1, 2, 3, 12]))]
        lines += [f'AF {len(af)}'] + ['AF ' + sep.join(x) for x in af]
    am = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 2, 3, 12])):
            am.append([rng.choice(TAGS) for _k in range(rng.randint(1, 4))])
        lines += [f'AM {len(am)}'] + ['AM ' + ' '.join(x) for x in am]
    if rng.random() < 0.25:
        lines.append('IGNORE ' + rng.choice(['x', "'x", '-']))
    lines += subset(rng, ['CHECKSHARPS', 'LANG tr_TR', 'LANG az', 'LANG de'], 0.2)
    letters = rng.choice(['ab', 'abx', 'aBß', 'iıIa', "a'b-", 'aB-'])
    dic = []
    stems = []
    for _ in range(rng.randint(1, 8)):
        stem = rng.choice([rword(rng, letters, 1, 4), rword(rng, letters, 1, 4), rword(rng, letters, 1, 2) + ' ' + rword(rng, letters, 1, 2),
                           rng.choice(stems) if stems else 'ab', rword(rng, letters, 1, 2) + '/' + rword(rng, letters, 1, 2),
                           rword(rng, letters, 1, 3).upper(), rword(rng, letters, 1, 3).capitalize(), '12', '3a'])
        stems.append(stem)
        line = stem.replace('/', '\\/')
        if rng.random() < 0.6:
            line += '/' + (str(rng.randint(1, len(af))) if af else sep.join(rng.sample(pool, rng.randint(1, 3))))
        elif rng.random() < 0.1:
            line += '/'
        k = rng.random()
        if k < 0.55:
            tags = [rng.choice(TAGS) for _j in range(rng.randint(1, 3))]
            if am and rng.random() < 0.6:
                tags = rng.choice([[str(rng.randint(1, len(am)))], tags + [str(rng.randint(1, len(am)))], [str(rng.randint(1, len(am)))] + tags])
            first = rng.choice([' ', '  ', '\t', '\t\t'])
            if not tags[0].partition(':')[1] or len(tags[0].partition(':')[0]) != 2:
                first = '\t'
            line += first + rng.choice([' ', '\t', '  ']).join(tags)
        elif k < 0.65:
            line += rng.choice(['\t', '  ', '\tfree text', ' \t', '\tfree po:text', '\tx\tis:y ph:bb', '\t/A'])
        dic.append(rng.choice(['', '', '', ' ', '\t']) + line)
    head = rng.choice([[str(len(dic))], [str(len(dic))], [f'{len(dic)} words'], ['0'], []])
    if not head and dic[0].strip()[0].isdigit():
        head = ['1']
    for _ in range(rng.randint(0, 2)):
        dic.insert(rng.randint(0, len(dic)), '')
    bom = rng.choice(['', '', '', '﻿'])
    eol = rng.choice(['\n', '\n', '\r\n'])
    text = bom + eol.join(head + dic) + rng.choice([eol, ''])
    return eol.join(lines) + eol, text, stems, [f for f in pool]


def c24(job, rng, n):
    def asks(stems, flags):
        qs = [{'stem': s, 'flag': f} for s in stems for f in flags]
        return [{'op': 'entries', 'slot': 1}, {'op': 'homonyms', 'slot': 1, 'ws': stems}, {'op': 'flagged', 'slot': 1, 'qs': qs}]

    def make(words, _sugs, _note):
        return asks(sampled(rng, words, 12), [cps(f) for f in 'ABFS'])
    rewritten(job, rng, [(sessions.c09, n // 6), (lookups.c06, n // 10), (lookups.c07, n // 10), (suggestions.c13, n // 10), (fixtures.scans, n // 8)], make)
    for _ in range(n):
        aff, dic, stems, flags = entry_dict(rng)
        f = job.file(aff, dic)
        words = [x for s in stems for x in (s, s.lower(), s.upper(), s.replace('x', ''), s.lower().replace("'", ''))]
        job.chars.update(c for w in words for x in (w, w.upper(), w.lower()) for c in map(ord, x))
        job.run([{'op': 'open', 'slot': 1, 'file': f}] + asks(sampled(rng, [cps(w) for w in words if w], 20), [cps(f) for f in flags]), 'entries')


# --- C25: options and tables -------------------------------------------------------------------------------
def c25(job, rng, n):
    def make(_words, _sugs, _note):
        return [{'op': 'options', 'slot': 1}]
    rewritten(job, rng, [(sessions.c09, n // 4), (fixtures.scans, n // 6)] + [(s, n // 12) for s in (
        lookups.c01, lookups.c02, lookups.c03, lookups.c04, lookups.c06, lookups.c08, suggestions.c12, suggestions.c13, suggestions.c14,
        suggestions.c17, suggestions.c21)], make)
    for _ in range(n):
        f = job.file(*options_dict(rng))
        job.run([{'op': 'open', 'slot': 1, 'file': f}, {'op': 'options', 'slot': 1}], 'options')


def options_dict(rng):
    fmt = rng.choice(['', '', 'long', 'num', 'UTF-8'])
    pool = {'': list('ABCDx1'), 'long': ['Aa', 'Ab', 'bA', '12', 'zz'], 'num': ['1', '12', '999', '65000', '7'], 'UTF-8': list('Aéж1β')}[fmt]
    sep = ',' if fmt == 'num' else ''
    head = ['SET UTF-8'] + (['FLAG ' + fmt] if fmt else [])
    af = []
    if rng.random() < 0.25:
        af = [subset(rng, pool, 0.5) or [pool[0]] for _ in range(rng.choice([1, 2, 3, 12]))]
        head += [f'AF {len(af)}'] + ['AF ' + sep.join(x) for x in af]
    if rng.random() < 0.2:
        head.append('IGNORE ' + rng.choice(['x', "'x", '-']))
    blocks = []
    for name in DRIVER_BOOLS:
        if rng.random() < 0.15:
            blocks.append([name + rng.choice(['', '', ' x', ' # on'])])
    for name in DRIVER_FLAGS:
        if rng.random() < 0.2:
            blocks.append([f'{name} {rng.choice(pool)}' + rng.choice(['', '', ' # x'])])
    for name in ('MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX'):
        if rng.random() < 0.35:
            blocks.append([f'{name} {rng.choice([0, 1, 2, 5, 10])}' if name != 'COMPOUNDMIN' else f'{name} {rng.choice([1, 2, 5])}'])
    for name, values in (('KEY', ['ab|cd', 'qwe', 'é|ж', 'Ab|aB', '|a']), ('TRY', ['abc', "a-'", 'éж', 'aAbB', 'aab', '10']), ('WORDCHARS', ['-1', 'ab', "'’Ab"]),
                         ('LANG', ['tr', 'de_DE', 'az_AZ', 'en'])):
        if rng.random() < 0.4:
            blocks.append([name + ' ' + rng.choice(values)])

    def table(name, rows):
        gap = rng.choice([[], [], [], ['']])
        return [f'{name} {len(rows)}'] + gap + [rng.choice([' ', '  ', '\t']).join([name] + r) + rng.choice(['', '', ' # x']) for r in rows]
    if rng.random() < 0.5:
        blocks.append(table('REP', [[rng.choice(['a', '^ab', 'b$', '^a$', 'é', 'A', '^Éb', "'s$", 'a-b', '1']), rng.choice(['b', 'a_b', 'é', 'ab', 'B', 'Ab_C', '0', 'a_'])] for _ in range(rng.randint(1, 4))]))
    if rng.random() < 0.4:
        blocks.append(table('MAP', [[rng.choice(['ab', 'a(ss)é', '(ab)(c)', 'ß(ss)', 'aba', '(ab)a(ab)', 'aA(Ab)', 'ÉéeE', "'’", '(SS)ß', '01'])] for _ in range(rng.randint(1, 3))]))
    for name in ('ICONV', 'OCONV'):
        if rng.random() < 0.35:
            blocks.append(table(name, [[rng.choice(['a', '_b', 'ab_', '_c_', 'é', 'd_e', 'A', 'Ab_', "'", '0']), rng.choice(['b', 'a_b', 'é', '_', 'x', 'B', 'É', '0', '’'])]
                                       for _ in range(rng.randint(1, 4))]))
    if rng.random() < 0.35:
        def one():
            f = rng.choice(pool)
            return (f if fmt in ('', 'UTF-8') else f'({f})') + rng.choice(['', '', '*', '?'])
        blocks.append(table('COMPOUNDRULE', [[''.join(one() for _ in range(rng.randint(1, 4)))] for _k in range(rng.randint(1, 3))]))
    if rng.random() < 0.35:
        def side():
            return rng.choice(['a', 'ab', '0', 'é', 'A', 'aB', 'a0']) + rng.choice(['', '', '/' + rng.choice(pool)])
        blocks.append(table('CHECKCOMPOUNDPATTERN', [[side(), side()] + rng.choice([[], ['x'], ['ab'], ['x', 'y'], ['X'], ['0']]) for _ in range(rng.randint(1, 3))]))
    if rng.random() < 0.35:
        blocks.append(table('PHONE', [[rng.choice(['A', 'AB', 'A(BC)', 'AB-', 'A^', 'B$', 'AB^$', 'ÉA', 'a', 'Ab']), rng.choice(['A', '_', 'BB', 'É', 'A_', '_B', '__'])]
                                      for _ in range(rng.randint(1, 4))]))
    if rng.random() < 0.25:
        rows = [rng.sample(['po:x', 'is:y', 'st:ab', 'x', 'al:1', 'PO:X', 'st:Ab'], rng.randint(1, 3)) for _ in range(rng.randint(1, 3))]
        blocks.append([f'AM {len(rows)}'] + ['AM ' + ' '.join(r) for r in rows])
    if rng.random() < 0.4:
        blocks.append(table('BREAK', [[rng.choice(['-', '^-', '-$', 'a', '–', 'A', '^--', 'b-$', "'"])] for _ in range(rng.randint(1, 3))]))
    elif rng.random() < 0.2:
        blocks.append(['BREAK 0'])
    for kind in ('SFX', 'PFX', 'SFX', 'PFX'):
        for flag in dict.fromkeys(rng.choice(pool) for _ in range(rng.randint(0, 2))):
            rows = []
            for _ in range(rng.randint(1, 3)):
                add = rng.choice(['0', 'a', 'bx', 'é', "x'", 'A', 'É', '00', 'a0'])
                if rng.random() < 0.4:
                    add += '/' + (str(rng.randint(1, len(af))) if af else sep.join(rng.sample(pool, rng.randint(1, 3))))
                rows.append([flag, rng.choice(['0', 'a', 'bb', 'A', '0a']), add] + rng.choice([['.'], ['[^ab]'], ['a[bc]'], ['[A-Za]'.replace('-', '')], ['É'], [], ['.', 'po:x'], ['.', '# x']]))
            t = table(kind, rows)
            t[0] = rng.choice([' ', '\t']).join([kind, flag, rng.choice('YYYNNy'), str(len(rows))])
            blocks.append(t)
    rng.shuffle(blocks)
    out = list(head)
    for b in blocks:
        out += rng.choice([[], [], [], ['# x'], [''], ['Free text 1'], ['NAME x y']]) + b
    eol = rng.choice(['\n', '\n', '\r\n'])
    bom = rng.choice(['', '', '', '﻿'])
    return bom + eol.join(out) + rng.choice([eol, '']), '2\nab\nba ' + rng.choice(['', 'ph:bb', 'ph:bb*', 'ph:b->a']) + '\n'


DRIVER_BOOLS = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
                'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
DRIVER_FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'PSEUDOROOT', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
                'COMPOUNDMIDDLE', 'COMPOUNDEND', 'COMPOUNDLAST', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
                'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']


# --- C26: how suggestions were found -------------------------------------------------------------------------
def c26(job, rng, n):
    def make(_words, sugs, _note):
        return [{'op': 'kinds', 'slot': 1, 'w': w} for w in sampled(rng, sugs, 5)]
    s = suggestions
    rewritten(job, rng, [(s.c12, n // 4), (fixtures.suggests, n // 12)] + [(f, n // 8) for f in (s.c13, s.c15, s.c16, s.c17, s.c18, s.c21, lookups.c03)], make)


# --- C27: casing ----------------------------------------------------------------------------------------------
LETTERS = ['ab', 'abc', 'sßa', 'ßS', 'iı', 'iıIİ', 'aİ', 'éà', 'жд', 'λσς', "σ'α", 'ας.', 'aǆ', 'ǆǅǄ', "a'b", 'a1', 'a-', 'aﬁ', 'aŉ', 'aﬀ', 'ßẞ', 'ssSSß', 'i\u0307I',
           'aª', 'a中', 'ΰa', 'ᾳa', 'Ⅷa', 'a b', 'a.', 'ა', 'Ა', 'aꭰ', 'K', '𐐨a', 'ĳa']


def cased(rng, w):
    return ''.join(rng.choice([c, c, c.upper(), c.lower(), c.title()]) for c in w)


def c27(job, rng, n):
    for i in range(n):
        d = Dict()
        d.add(*[[], ['CHECKSHARPS'], ['LANG ' + rng.choice(['tr', 'tr_TR', 'az', 'az_AZ', 'crh', 'crh_UA'])],
                ['LANG ' + rng.choice(['de', 'de_DE', 'en', 'tr_CY', 'azb', 'TR'])], ['CHECKSHARPS', 'LANG tr'], ['LANG az', 'CHECKSHARPS'], [], []][i % 8])
        d.word('ab')
        letters = [rng.choice(LETTERS) for _k in range(2)]
        words = [''.join(t) for a in letters for t in itertools.product(sorted({*a, *(x for x in a.upper() if x)}), repeat=2)]
        words += sorted({*letters[0], *letters[1]})
        for a in letters + [''.join(letters)]:
            for _k in range(25):
                w = rword(rng, a, 1, 6)
                words += [w, cased(rng, w), rng.choice([w.upper(), w.capitalize(), w.title(), w.lower(), w.swapcase()])]
        words = [w for w in dict.fromkeys(words) if w]
        words = words if len(words) <= 110 else rng.sample(words, 110)
        job.chars.update(c for w in words for x in (w, w.upper(), w.lower(), w.title()) for c in map(ord, x))
        f = job.file(d.aff(), d.dic())
        job.run([{'op': 'open', 'slot': 1, 'file': f}, {'op': 'casing', 'slot': 1, 'ws': [cps(w) for w in words]}], 'casing')


# --- C28: candidates of corrections -----------------------------------------------------------------------------
def replacements(groups, w):
    """How many texts the related characters of MAP give."""
    counts = {'': 0}
    for start in reversed(range(len(w))):
        rest = w[start:]
        counts[rest] = counts[rest[1:]] + sum(1 + counts[rest[len(one):]] for g in groups for one in g if one and rest.startswith(one)
                                              for other in g if other != one)
    return counts[w]


def map_groups(aff):
    rows = [line.split()[1] for line in aff.splitlines() if line.startswith('MAP ') and not line.split()[1].isdigit()]
    return [[x.strip('()') for x in re.findall(r'\([^()]*\)|[^()]', row)] for row in rows]


def c28(job, rng, n):
    def make(_words, sugs, _note):
        return [{'op': 'edits', 'slot': 1, 'w': w} for w in sampled(rng, [w for w in sugs if w and len(w) <= 8], 3)]
    first = len(job.runs)
    rewritten(job, rng, [(suggestions.c12, n // 4), (suggestions.c13, n // 3), (suggestions.c21, n // 8), (lookups.c06, n // 8), (fixtures.suggests, n // 10)], make)
    for _ in range(n // 2):
        d = Dict()
        alphabet = rng.choice(['ab', 'abc', 'aß', 'iı', 'abé', 'a-b', 'aBc', 'a b', "ab'", 'ab|'])
        d.add(*subset(rng, ['NOSPLITSUGS', 'CHECKSHARPS', 'LANG tr', 'MAXNGRAMSUGS 0', 'TRY ' + rng.choice(['ab', 'b', 'é', '-', 'ab-', 'Ab', "'a", 'aa']),
                            'KEY ' + rng.choice(['ab|c', 'aba', 'a', '|a|b|', 'éab', 'ab||ba', 'AB|ab', 'cba', 'aab', 'abba', 'aaa|bb', 'a|a'])], 0.45))
        w = rword(rng, alphabet, 1, 7)
        if rng.random() < 0.6:
            d.table('REP', [f'{p} {r}' for p, r in suggestions.rep_rows(rng, 'abc', w.replace(' ', '').replace('|', '') or 'a')])
        if rng.random() < 0.5:
            d.table('MAP', [''.join(rng.choice(['a', 'b', 'c', 'é', 'ß', '(ss)', '(ab)', '(a)', '(bba)']) for _k in range(rng.randint(1, 4)))
                            for _j in range(rng.randint(1, 2))])
        d.word('ab')
        words = [w, lookups.random_case(rng, w), rword(rng, alphabet, 1, 5)]
        job.chars.update(c for x in words for y in (x, x.upper(), x.lower()) for c in map(ord, y))
        f = job.file(d.aff(), d.dic())
        job.run([{'op': 'open', 'slot': 1, 'file': f}] + [{'op': 'edits', 'slot': 1, 'w': cps(x)} for x in dict.fromkeys(words)], 'candidates')
    # leaves out what would take long
    for k in range(first, len(job.runs)):
        evs = job.runs[k]
        groups = map_groups(job.files[evs[0]['file'] - 1]['aff'].encode('latin-1').decode('utf8', 'replace'))
        job.runs[k] = [ev for ev in evs if ev['op'] != 'edits' or replacements(groups, text(ev['w'])) <= 400]


# --- C29: another order, more entries ------------------------------------------------------------------------------
def reordered(rng, lines):
    """Lines in another order; those with the same stem stay in their order."""
    out = list(lines)
    rng.shuffle(out)
    groups = {}
    for line in lines:
        groups.setdefault(stem_of(line).lower(), []).append(line)
    return [groups[stem_of(line).lower()].pop(0) for line in out]


def stem_of(line):
    return line.strip().split('/')[0].split('\t')[0]


# what the entries of a dictionary may do to other words
INTERFERING = ('CHECKCOMPOUNDREP', 'FORBIDDENWORD', 'FORCEUCASE', 'COMPOUNDFORBIDFLAG', 'NEEDAFFIX', 'PSEUDOROOT', 'ONLYINCOMPOUND', 'ICONV', 'IGNORE',
                'NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'CHECKSHARPS')


def c29(job, rng, n):
    sources = [(lookups.c01, n // 8), (lookups.c02, n // 8), (lookups.c03, n // 12), (lookups.c04, n // 12), (lookups.c05, n // 12), (lookups.c07, n // 12),
               (lookups.c08, n // 16), (suggestions.c12, n // 10), (suggestions.c13, n // 12), (suggestions.c16, n // 10), (suggestions.c17, n // 10),
               (suggestions.c21, n // 16)]
    for source, k in sources:
        other = core.Job()
        source(other, rng, k)
        job.encodings |= other.encodings
        job.chars |= other.chars
        for run, note in zip(other.runs, other.notes):
            opens = [ev['file'] for ev in run if ev['op'] == 'open' and ev['file'] not in other.opaque]
            if len(opens) != 1:
                continue
            pair = other.files[opens[0] - 1]
            head, *lines = pair['dic'].split('\n')
            lines = [x for x in lines if x.strip()]
            if len(lines) < 2 or 'ph:' in pair['dic'] or '\r' in pair['dic'] or not head.strip()[:1].isdigit():
                continue
            words = sampled(rng, [w for ev in run for w in ev.get('ws', [])], 60)
            sugs = sampled(rng, [ev['w'] for ev in run if ev['op'] == 'suggest'], 3)
            job.files.append(pair)
            a = len(job.files)
            job.files.append({'aff': pair['aff'], 'dic': '\n'.join([head] + reordered(rng, lines)) + '\n'})
            evs = [{'op': 'open', 'slot': 1, 'file': a}, {'op': 'open', 'slot': 2, 'file': a + 1, 'content': a}]
            for slot in (1, 2):
                if words:
                    evs.append({'op': 'scan', 'slot': slot, 'ws': words, 'j': 'both'})
                evs += [{'op': 'suggest', 'slot': slot, 'w': w, 'j': 'both'} for w in sugs]
            if words:       # one more entry
                stem = core.text(rng.choice(words))
                if stem and not set(stem) & set(' /\t\\#') and stem.strip() == stem and not stem[:1].isdigit() and 'SET' in pair['aff']:
                    more = list(lines)
                    more.insert(rng.randint(0, len(more)), core.to_bytes(stem))
                    job.files.append({'aff': pair['aff'], 'dic': '\n'.join([str(len(more))] + more) + '\n'})
                    evs.append({'op': 'open', 'slot': 3, 'file': len(job.files)})
                    ws = sampled(rng, words + [cps(stem)], 61)
                    evs.append({'op': 'scan', 'slot': 3, 'ws': ws})
                    if not any(x in pair['aff'] for x in INTERFERING):
                        evs.append({'op': 'scan', 'slot': 1, 'ws': ws, 'j': 'both'})
                        evs.append({'op': 'scan', 'slot': 3, 'ws': ws, 'j': 'grown', 'base': a, 'added': [cps(stem)]})
            job.run(evs, 'order: ' + note)
    crowds(job, rng, max(8, n // 40))
    big_pairs(job, rng, max(2, n // 250))


def crowds(job, rng, n):
    """More words of equal similarity than are looked at."""
    for i in range(n):
        w = ''.join(rng.sample('abcdefgh', rng.randint(5, 7)))
        aff = ['SET UTF-8', 'MAXDIFF 10', f'MAXNGRAMSUGS {rng.choice([0, 4]) if i % 2 else rng.choice([4, 100, 300])}', 'SFX S Y 1', f'SFX S 0 {w[-1]} .']
        if i % 2:
            aff += ['PHONE 3', f'PHONE {w[0].upper()} A', f'PHONE {w[1].upper()} B', f'PHONE {w[2].upper()} C']
        stems = set()
        while len(stems) < rng.choice([110, 150, 220]):
            k = rng.randint(0, 9)
            t = w[:-2] if k else w[:-1]
            stems.add(t + rword(rng, 'pqrstuvwxyz', 2, 2 if k > 2 else 3))
        lines = [s + ('/S' if rng.random() < 0.3 else '') for s in sorted(stems)]
        rng.shuffle(lines)
        base = job.file('\n'.join(aff) + '\n', '\n'.join([str(len(lines))] + lines) + '\n', opaque=True)
        job.file('\n'.join(aff) + '\n', '\n'.join([str(len(lines))] + reordered(rng, lines)) + '\n', opaque=True)
        evs = []
        for k in (0, 1):
            evs.append({'op': 'open', 'slot': 1 + k, 'file': base + k, 'content': base})
            evs += [{'op': 'suggest', 'slot': 1 + k, 'w': cps(x)} for x in (w, w[:-1], w + 'h')]
        for ev in evs:
            ev['j'] = 'learn'
        job.run(evs, 'order: crowd')


def big_pairs(job, rng, n):
    """The dictionaries which come with the library, in another order and with more entries."""
    for name, path in sessions.bundled_names():
        with open(path + '.aff', 'rb') as f:
            aff = f.read().decode('latin-1')
        with open(path + '.dic', 'rb') as f:
            dic = f.read().decode('latin-1')
        if '\nph:' in dic or ' ph:' in dic or '\tph:' in dic:
            continue
        head, *lines = dic.split('\n')
        lines = [x for x in lines if x.strip()]
        enc = next(x.split()[1] for x in aff.split('\n') if x.startswith('SET'))
        for _k in range(n if name == 'en_US' else 1):
            stems = [stem_of(x) for x in rng.sample(lines, 150)]
            stems = [s.encode('latin-1').decode(enc) for s in stems]
            stems = [s for s in stems if s.isalpha()]
            words = [w for s in stems for w in (s, s.upper(), s.capitalize(), s + 's', mutate(rng, s, s), s + rng.choice(stems), s + '-' + rng.choice(stems))]
            words = list(dict.fromkeys(words))
            sugs = [mutate(rng, mutate(rng, s, s), s) for s in rng.sample(stems, 3)] + [stems[0] + stems[1]]
            added = rng.sample(words, 5)
            base = job.file('', '', opaque=True)
            job.files[-1] = {'aff': aff, 'dic': dic}
            job.file('', '', opaque=True)
            job.files[-1] = {'aff': aff, 'dic': '\n'.join([head] + reordered(rng, lines)) + '\n'}
            more = list(lines)
            for s in added:
                more.insert(rng.randint(0, len(more)), core.to_bytes(s, enc))
            job.file('', '', opaque=True)
            job.files[-1] = {'aff': aff, 'dic': '\n'.join([head] + more) + '\n'}
            ws = [cps(w) for w in words]
            evs = []
            for k in (0, 1):
                evs.append({'op': 'open', 'slot': 1 + k, 'file': base + k, 'content': base, 'timeout': 120})
                evs.append({'op': 'scan', 'slot': 1 + k, 'ws': ws})
                evs += [{'op': 'suggest', 'slot': 1 + k, 'w': cps(w), 'timeout': 120} for w in sugs]
            evs.append({'op': 'open', 'slot': 3, 'file': base + 2, 'timeout': 120})
            for ev in evs:
                ev['j'] = 'learn'
            evs.append({'op': 'scan', 'slot': 3, 'ws': ws, 'j': 'grown', 'base': base, 'added': [cps(w) for w in added]})
            job.run(evs, 'order: ' + name)


# --- C30: similar words -----------------------------------------------------------------------------------------------
def c30(job, rng, n):
    def make(words, sugs, _note):
        evs = []
        for w in sampled(rng, [w for w in sugs if w], 3):
            known = [] if rng.random() < 0.5 else [w[:rng.randint(1, len(w))], w[-2:], rng.choice(sugs)][:rng.randint(1, 3)]
            evs.append({'op': 'near', 'slot': 1, 'w': w, 'known': known})
        return evs
    rewritten(job, rng, [(suggestions.c16, n // 2), (suggestions.c17, n // 2), (suggestions.c11, n // 8), (suggestions.c14, n // 8),
                         (lookups.c07, n // 8), (fixtures.suggests, n // 12)], make)
