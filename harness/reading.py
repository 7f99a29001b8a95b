"""Scenarios about measures of texts (C33) and readers of files (C34)."""

import analyses
import fixtures
import lookups
import model
import suggestions
import tables
from core import cps, text
from gen import mutate, rword

COMBOS = [{'n': n, 'mode': mode, 'weighted': weighted} for n in (1, 2, 3, 4, 7) for mode in ('none', 'longer', 'any') for weighted in (False, True)]


def asked_measures(menu):
    ws = [cps(w) for w in menu['words']]
    if menu['name'] == 'phonetic codes':
        return [{'op': 'codes', 'slot': 1, 'ws': ws}]
    return [{'op': 'measures', 'slot': 1, 'qs': [[a, b] for b in ws], 'combos': COMBOS} for a in ws + [[]]]


analyses.ASKED['C33'] = asked_measures


# --- C33 ------------------------------------------------------------------------------------------------
def c33(job, rng, n):
    def make(words, sugs, _note):
        words = analyses.sampled(rng, words + sugs, 12)
        more = [text(w).upper() for w in words[:3]]
        for w in words[-5:]:
            k = rng.randint(0, len(w))
            more.append(text(w[:k]) + rng.choice(["'", '-', ' ', '1', 'é', 'ß', 'ŉ', '.', '\t', 'x']) + text(w[k:]))
        job.chars.update(c for w in more for x in (w, w.upper(), w.lower()) for c in map(ord, x))
        evs = [{'op': 'codes', 'slot': 1, 'ws': words + [cps(w) for w in more]}]
        qs = [[rng.choice(words), rng.choice(words)] for _k in range(6)] if words else []
        return evs + [{'op': 'measures', 'slot': 1, 'qs': qs, 'combos': COMBOS}]
    analyses.rewritten(job, rng, [(suggestions.c17, n), (suggestions.c16, n // 4), (lookups.c05, n // 8), (fixtures.suggests, n // 6)], make)
    first = job.file('SET UTF-8\n', '1\na\n')
    for _ in range(n):
        letters = rng.choice(['ab', 'abc', 'abcdef', 'aAbB', 'éжa', 'a-b', "a'b", 'a b', 'a\U00010400', 'ßs', 'iİı'])
        qs = []
        for _k in range(12):
            a = rword(rng, letters, 0, rng.choice([3, 6, 12, 20]))
            b = a
            for _m in range(rng.randint(0, 4)):
                b = mutate(rng, b, letters)
            b = rng.choice([b, b, b, b[::-1], rword(rng, letters, 0, 12), b + a, a[1:], a[:-1], a + b[:3]])
            qs.append([cps(a), cps(b)] if rng.random() < 0.5 else [cps(b), cps(a)])
        job.run([{'op': 'open', 'slot': 1, 'file': first}, {'op': 'measures', 'slot': 1, 'qs': qs, 'combos': COMBOS}], 'measures')


# --- C34 ------------------------------------------------------------------------------------------------
ENCS = ['Windows-1252', 'ISO8859-1', 'ISO8859-2', 'KOI8-R', 'CP1251', 'UTF-8', 'UTF-8', 'ISO8859-15']
SPELLINGS = {}
for _name in ENCS:
    SPELLINGS[_name] = [_name] + [s for s, e in tables.SYNONYMS.items() if e == _name]
PIECES = [b'ab', b'a b', b'a\tb', b'\xe9', b'\xc3\xa9', b'\xd0\xb6', b'\xc3', b'\xf0\x9f\x98\x80', b'\xe2\x82', b'\xa0', b'\xc2\xa0', b'\x85', b'\xc2\x85', b'\x0b', b'\x0c',
          b'\x1c', b'\xe2\x80\xa8', b'\xef\xbb\xbf', b'\xff', b'\xdf', b'# x', b'SET UTF-8', b'/', b'\x00', b'\x1a', b'\x80', b'1', b'\xe3\x80\x80', b'\x98']
BOM = b'\xef\xbb\xbf'
BLANKS = [b'', b'', b' ', b'\t', b' \t ', b'\xa0', b'\xc2\xa0', b'\x85', b'\x1c', b'\xe2\x80\xa8', b'\x0c']


def some_bytes(rng):
    out = rng.choice([b'', b'', b'', b'\xef\xbb\xbf', b' \xef\xbb\xbf', b'\xef\xbb'])
    end = rng.choice([b'\n', b'\n', b'\r\n', b'\r', None])
    for _k in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
        line = rng.choice(BLANKS) if rng.random() < 0.3 else b''.join(rng.choice(PIECES) for _m in range(rng.randint(1, 4)))
        if rng.random() < 0.3:
            line = rng.choice([b' ', b'\t', b'  ', b'\xa0']) + line + rng.choice([b'', b' ', b'\t'])
        out += line + (end or rng.choice([b'\n', b'\r\n', b'\r', b'\n\n', b'\n\r', b'\r\r\n']))
    out += rng.choice([b'', b'', b'ab', b' ', b'\xc3', b'\x1a'])
    if out.startswith(BOM):       # one mark is left out, several are not judged
        out = BOM + out[3:].replace(BOM, b'')
    return out


def spelled(rng, ev):
    ev['spelled'] = rng.choice(SPELLINGS[ev['enc']])
    return ev


def c34(job, rng, n):
    job.encodings.update(ENCS)
    corpus = [(fx.aff_bytes, fx.dic_bytes) for fx in fixtures.load()]
    for k in range(n):
        if corpus and k % 5 == 0:
            a, b = (t[:rng.choice((200, 600))] for t in rng.choice(corpus))
        else:
            a, b = some_bytes(rng), some_bytes(rng)
        f = job.file(a, b)
        evs = []
        readers = rng.choice([1, 1, 2, 3])
        for r in range(1, readers + 1):
            evs.append(spelled(rng, {'op': 'ropen', 'rd': r, 'file': f, 'part': rng.choice(['aff', 'dic']), 'how': rng.choice(['file', 'zip']), 'enc': rng.choice(ENCS)}))
        for _m in range(rng.choice([0, 3, 8, 20])):
            r = rng.randint(1, readers)
            if rng.random() < 0.3:
                evs.append(spelled(rng, {'op': 'renc', 'rd': r, 'enc': rng.choice(ENCS)}))
            else:
                evs.append({'op': 'rnext', 'rd': r})
        for r in range(1, readers + 1):
            evs.append({'op': 'rrest', 'rd': r})
            if rng.random() < 0.3:
                evs += [{'op': 'rnext', 'rd': r}, spelled(rng, {'op': 'renc', 'rd': r, 'enc': rng.choice(ENCS)}), {'op': 'rnext', 'rd': r}]
        job.run(evs, 'readers')


def c34_model(job, rng, scratch, deep):
    texts = [b'\xef\xbb\xbfa\xc3\xa9\n\n\xa0\n\xc2\xa0b \n', b' \r\n\xe9\r\t\xc3\xb6', b'\xef\xbb\xbf\n\xc2\x85\n\n\xf6\n']
    stats = []
    job.encodings.update(ENCS)
    for name, menu in (('one reader', {'files': texts, 'encs': ['UTF-8', 'Windows-1252', 'ISO8859-2'], 'readers': 1, 'depth': 6 if not deep else 8}),
                       ('two readers', {'files': texts[:2], 'encs': ['UTF-8', 'ISO8859-1'], 'readers': 2, 'depth': 5 if not deep else 6})):
        chars = {c for t in texts for e in ('utf8', 'latin-1', 'cp1252', 'iso8859-2') for c in map(ord, t.decode(e, 'surrogateescape'))}
        found, st = model.behaviours('Readers', {**menu, 'files': [list(t) for t in texts[:len(menu['files'])]]}, scratch, chars=chars, encodings=ENCS)
        found.sort(key=str)
        files = {}
        for k, h in enumerate(found):
            evs = []
            for ev in h:
                ev = dict(ev)
                if ev['op'] == 'ropen':
                    t = texts[ev['file'] - 1]
                    if t not in files:
                        files[t] = job.file(t, t)
                    ev.update(file=files[t], part='aff' if k % 2 else 'dic', how='zip' if (k + ev['rd']) % 3 == 0 else 'file')
                if 'enc' in ev:
                    spelled(rng, ev)
                evs.append(ev)
            job.run(evs, 'histories of the model')
        stats.append({**st, 'name': name})
    return stats
