"""Character and encoding tables for the specification (spec/Unicode.tla, spec/Files.tla).

They are data, written from the Unicode database and the codecs of the interpreter that runs the library.
"""

import json
import re

DENSE = 0x250
WORD = re.compile(r'\w')

ENCODINGS = [
    'Windows-1252', 'ISO8859-1', 'ISO8859-2', 'ISO8859-3', 'ISO8859-4', 'ISO8859-5', 'ISO8859-7', 'ISO8859-9',
    'ISO8859-13', 'ISO8859-15', 'KOI8-R', 'KOI8-U', 'CP1251', 'CP1250', 'CP1257', 'ISO8859-14', 'ISO8859-10',
    'UTF-8',
]
# other spellings accepted in SET
SYNONYMS = {
    'ISO-8859-1': 'ISO8859-1', 'ISO-8859-2': 'ISO8859-2', 'ISO-8859-15': 'ISO8859-15', 'iso8859-1': 'ISO8859-1',
    'utf-8': 'UTF-8', 'UTF8': 'UTF-8', 'latin1': 'ISO8859-1', 'cp1251': 'CP1251', 'windows-1251': 'CP1251',
    'windows-1252': 'Windows-1252', 'koi8-r': 'KOI8-R', 'iso8859-9': 'ISO8859-9', 'CP1252': 'Windows-1252',
    'ISO-8859-9': 'ISO8859-9',
}
CODECS = {}


def cps(text):
    return [ord(c) for c in text]


def row(cp):
    c = chr(cp)
    cls = 1 if c.islower() else 2 if c.isupper() else 3 if c.istitle() else 0
    # whether a sigma is at the end of a word is decided by its neighbours
    mid = 1 if (c + '\u03a3').lower()[-1] == '\u03c2' else 2 if ('a' + c + '\u03a3').lower()[-1] == '\u03c2' else 0
    return {'lo': cps(c.lower()), 'up': cps(c.upper()), 'ti': cps(c.title()), 'cls': cls,
            'dec': c.isdecimal(), 'wrd': bool(WORD.match(c)), 'spc': c.isspace(), 'mid': mid}


def closure(chars):
    todo = set(chars)
    done = set()
    while todo:
        cp = todo.pop()
        done.add(cp)
        for o in cps(chr(cp).lower() + chr(cp).upper() + chr(cp).title()):
            if o not in done:
                todo.add(o)
    return done


def codec(name):
    return CODECS.get(name, name)


def table(name):
    res = []
    for b in range(256):
        try:
            res.append(ord(bytes([b]).decode(codec(name))))
        except UnicodeDecodeError:
            res.append(0xDC00 + b)
    return res


def make(chars, encodings=()):
    encs = {'Windows-1252', *encodings} - {'UTF-8'}
    encs = {SYNONYMS.get(e, e) for e in encs} - {'UTF-8'}
    tabs = {e: table(e) for e in sorted(encs)}
    known = set(chars) | {0x3a3, 0x3c2, 0x69, 0x73, 0xdf, 0x130, 0x131, 0x307, 0xfeff}
    for t in tabs.values():
        known.update(t)
    rest = sorted(cp for cp in closure(known) if cp >= DENSE)
    names = [{'name': cps(e), 'enc': e} for e in ENCODINGS]
    names += [{'name': cps(a), 'enc': e} for a, e in SYNONYMS.items()]
    return {'dense': [row(cp) for cp in range(DENSE)], 'keys': rest, 'rows': [row(cp) for cp in rest],
            'enc': tabs, 'encnames': names}


def write(path, chars, encodings=()):
    with open(path, 'w', encoding='ascii') as out:
        json.dump(make(chars, encodings), out, separators=(',', ':'))
