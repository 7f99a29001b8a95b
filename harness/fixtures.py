"""Dictionaries of the repository's tests, varied: lines of the affix file left out, added or changed, entries left out,
given each other's flags or joined.  What is asked about them goes far beyond their own lists of words."""

import glob
import os
import re

import core
from gen import mutate

FOLDER = os.path.join(core.REPO, 'tests', 'integrational', 'fixtures')
LARGE = 20000
SWITCHES = ('CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDREP', 'CHECKSHARPS',
            'FULLSTRIP', 'COMPLEXPREFIXES', 'NOSPLITSUGS', 'ONLYMAXDIFF', 'BREAK 0', 'COMPOUNDWORDMAX 2', 'COMPOUNDWORDMAX 3',
            'COMPOUNDMIN 1', 'COMPOUNDMIN 2', 'COMPOUNDMIN 4', 'MAXNGRAMSUGS 0', 'MAXNGRAMSUGS 2', 'MAXCPDSUGS 1', 'MAXDIFF 3', 'TRY esianrtolcdugmphbyfvkw',
            'LANG tr_TR', 'LANG de')
FLAGGED = ('COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG',
           'FORBIDDENWORD', 'NOSUGGEST', 'KEEPCASE', 'NEEDAFFIX', 'CIRCUMFIX', 'FORCEUCASE')
TABLES = ('REP', 'MAP', 'BREAK', 'ICONV', 'OCONV', 'COMPOUNDRULE', 'CHECKCOMPOUNDPATTERN', 'PHONE', 'AF', 'AM', 'SFX', 'PFX')
DIRECTIVE = re.compile(r'^\s*([A-Z]+)\b')


def decoded(data):
    try:
        return data.decode('utf-8')
    except UnicodeDecodeError:
        return None


class Fixture:
    def __init__(self, name):
        self.name = name
        self.aff_bytes = self.read('.aff')
        self.dic_bytes = self.read('.dic')
        m = re.search(rb'^SET\s+(\S+)', self.aff_bytes, re.M)
        self.encoding = m.group(1).decode('ascii') if m else 'Windows-1252'
        codec = core.tables.codec(self.encoding)
        self.aff = self.aff_bytes.decode(codec, 'surrogateescape').lstrip('﻿').split('\n')
        self.dic = self.dic_bytes.decode(codec, 'surrogateescape').lstrip('﻿').split('\n')
        self.words = []
        for ext in ('.good', '.wrong', '.sug', '.root'):
            data = self.read(ext)
            content = decoded(data)
            if content is None:
                content = data.decode(codec, 'replace')
            self.words += [w.strip() for line in content.split('\n') for w in line.split(',' if ext == '.sug' else '\n') if w.strip()]
        self.words = list(dict.fromkeys(self.words))
        self.directives = {m.group(1) for m in map(DIRECTIVE.match, self.aff) if m}

    def read(self, ext):
        path = os.path.join(FOLDER, self.name + ext)
        if not os.path.exists(path):
            return b''
        with open(path, 'rb') as f:
            return f.read()


def load():
    """Fixtures of the repository; none if it has no such directory."""
    names = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(FOLDER, '*.aff')))
    res = []
    for name in names:
        path = os.path.join(FOLDER, name)
        if os.path.exists(path + '.dic') and max(os.path.getsize(path + '.aff'), os.path.getsize(path + '.dic')) < LARGE:
            res.append(Fixture(name))
    return res


def entry(line):
    """Stem, flags and the rest of a line of the word list."""
    m = re.match(r'^((?:[^/\t\\]|\\.)*?)(?:/(\S*))?(\s.*)?$', line)
    return (m.group(1), m.group(2) or '', m.group(3) or '') if m else (line, '', '')


def joined(stem, flags, rest):
    return stem + ('/' + flags if flags else '') + rest


def vary_aff(rng, fx, flags):
    lines = list(fx.aff)
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        k = rng.random()
        plain = [i for i, line in enumerate(lines) if DIRECTIVE.match(line) and DIRECTIVE.match(line).group(1) not in TABLES + ('SET', 'FLAG', 'LANG')]
        if k < 0.3 and plain:
            del lines[rng.choice(plain)]
        elif k < 0.6:
            lines.append(rng.choice(SWITCHES))
        elif flags:
            lines.append(rng.choice(FLAGGED) + ' ' + rng.choice(flags))
    return lines


def vary_dic(rng, fx):
    lines = [line for line in fx.dic]
    first, rest = lines[:1], [line for line in lines[1:] if line.strip()]
    for _ in range(rng.choice((0, 1, 2, 3))):
        if len(rest) < 2:
            break
        i, j = rng.sample(range(len(rest)), 2)
        a, b = entry(rest[i]), entry(rest[j])
        k = rng.randrange(6)
        if k == 0:
            del rest[i]
        elif k == 1:
            rest[i] = joined(a[0], b[1], a[2])
        elif k == 2:
            rest.append(joined(a[0], b[1], b[2]))
        elif k == 3 and len(a[0] + b[0]) < 20:
            rest.append(joined(a[0] + b[0], a[1] if rng.random() < 0.5 else b[1], ''))
        elif k == 4:
            rest[i], rest[j] = rest[j], rest[i]
        elif len(a[0]) > 2:
            rest.append(joined(rng.choice((a[0][:-1], a[0][1:], a[0].capitalize(), a[0].upper(), a[0].lower())), rng.choice((a[1], b[1])), ''))
    return first + rest


def flags_of(fx):
    """Flags as they are written in the affix file or word list."""
    fmt = next((line.split()[1] for line in fx.aff if re.match(r'^FLAG\s+\S', line)), '')
    texts = [entry(line)[1] for line in fx.dic] + [line.split()[1] for line in fx.aff if re.match(r'^(SFX|PFX)\s+\S', line)]
    if 'AF' in fx.directives:
        return sorted({line.split()[1] for line in fx.aff if re.match(r'^(SFX|PFX)\s+\S', line)})
    if fmt == 'long':
        return sorted({t[i:i + 2] for t in texts for i in range(0, len(t) - 1, 2)})
    if fmt == 'num':
        return sorted({f for t in texts for f in t.split(',') if f.isdigit()})
    return sorted({c for t in texts for c in t if c.isalnum()})


def words_of(rng, fx, dic, n):
    stems = [entry(line)[0].replace('\\/', '/') for line in dic[1:] if line.strip()] or ['a']
    stems = [s for s in stems if s] or ['a']
    base = fx.words + stems
    letters = ''.join(sorted({c for s in stems for c in s})) or 'a'
    words = list(base) if len(base) <= n else rng.sample(base, n)
    for _ in range(n):
        w = rng.choice(base)
        k = rng.randrange(7)
        if k == 0:
            w = mutate(rng, w, letters)
        elif k == 1:
            w = w + rng.choice(base)
        elif k == 2:
            w = rng.choice(stems) + rng.choice(stems) + (rng.choice(stems) if rng.random() < 0.3 else '')
        elif k == 3:
            w = rng.choice((w.upper(), w.capitalize(), w.lower(), w.swapcase(), w[:1] + w[1:].upper()))
        elif k == 4:
            w = w + rng.choice(('-', ' ', '.', "'")) + rng.choice(base)
        elif k == 5:
            w = mutate(rng, w + rng.choice(stems), letters)
        else:
            w = w[:-1] if rng.random() < 0.5 else w[1:]
        words.append(w)
    return [w for w in dict.fromkeys(words) if len(w) <= 30 and '\n' not in w and not any(0xdc80 <= ord(c) < 0xdd00 for c in w)]


def varied(rng, n, wanted, skip=()):
    """n fixtures whose directives satisfy wanted, varied: (fixture, aff, dic, encoding, words)."""
    known = [fx for fx in load() if fx.name not in skip and wanted(fx)]
    for _ in range(n if known else 0):
        fx = rng.choice(known)
        if rng.random() < 0.1:
            aff, dic = fx.aff, fx.dic
        else:
            aff, dic = vary_aff(rng, fx, flags_of(fx)), vary_dic(rng, fx)
        codec = core.tables.codec(fx.encoding)
        yield fx, '\n'.join(aff).encode(codec, 'surrogateescape'), '\n'.join(dic).encode(codec, 'surrogateescape'), fx.encoding, words_of(rng, fx, dic, 60)


def scans(job, rng, n, wanted=lambda fx: True):
    for fx, aff, dic, encoding, words in varied(rng, n, wanted, SLOW):
        job.simple(aff, dic, scan=words, encoding=encoding, note='fixture ' + fx.name)


def suggests(job, rng, n, wanted=lambda fx: True):
    for fx, aff, dic, encoding, words in varied(rng, n, wanted, SLOW):
        job.simple(aff, dic, suggest=rng.sample(words, min(3, len(words))), encoding=encoding, note='fixture ' + fx.name)


def using(*names):
    return lambda fx: any(d.startswith(names) for d in fx.directives)


# too many readings of their words
SLOW = ('timelimit',)
# property -> scenarios, fixtures, number of varied dictionaries
PLAN = {
    'C01': (scans, lambda fx: using('SFX', 'PFX')(fx) and not using('COMPOUND')(fx), 200),
    'C02': (scans, using('COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG'), 200),
    'C03': (scans, using('CHECKCOMPOUND', 'FORCEUCASE', 'COMPOUNDFORBIDFLAG', 'COMPOUNDFLAG', 'SIMPLIFIEDTRIPLE'), 200),
    'C04': (scans, using('COMPOUNDRULE'), 200),
    'C05': (scans, using('KEEPCASE', 'SFX', 'PFX', 'COMPOUNDFLAG'), 200),
    'C06': (scans, using('CHECKSHARPS', 'LANG'), 200),
    'C07': (scans, using('FORBIDDENWORD', 'NOSUGGEST', 'ONLYINCOMPOUND'), 200),
    'C08': (scans, using('ICONV', 'IGNORE', 'BREAK'), 200),
    'C11': (suggests, using(''), 100),
    'C12': (suggests, using('TRY', 'KEY', 'MAXNGRAMSUGS'), 100),
    'C13': (suggests, using('REP', 'MAP'), 100),
    'C14': (suggests, using('MAX', 'OCONV', 'COMPOUND'), 100),
    'C15': (suggests, using('OCONV', 'KEEPCASE', 'FORCEUCASE', 'TRY', 'FORBIDDENWORD', 'CHECKSHARPS', 'LANG'), 100),
    'C16': (suggests, using('SFX', 'PFX', 'MAXNGRAMSUGS'), 100),
    'C18': (suggests, using('BREAK', 'TRY'), 100),
    'C21': (suggests, using('TRY', 'NOSPLITSUGS', 'COMPOUND'), 100),
}


def add(job, prop, rng):
    if prop in PLAN:
        scenarios, wanted, n = PLAN[prop]
        scenarios(job, rng, n, wanted)
