"""Scenarios about loading, histories and totality: C09, C10, C19, C20."""

import os
import re

import model
import tables
from core import REPO, cps, to_bytes
from gen import Affix, Dict, affix_rows, mutate, rword, strings, subset
from lookups import SPECIALS, conversions, random_case

# --- C09 -----------------------------------------------------------------------------------------
FLAG_DIRS = ['NEEDAFFIX', 'KEEPCASE', 'NOSUGGEST', 'FORBIDDENWORD', 'CIRCUMFIX', 'ONLYINCOMPOUND', 'COMPOUNDFLAG',
             'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE']
SYNONYM = {'NEEDAFFIX': 'PSEUDOROOT', 'COMPOUNDEND': 'COMPOUNDLAST'}


class Content:
    """Content of a dictionary, flags being single letters."""

    def __init__(self, rng, alphabet):
        self.alphabet = alphabet
        self.flags = {}          # directive -> flag
        self.options = []        # directives without flags
        self.tables = []         # (name, rows) without flags
        self.rules = []          # COMPOUNDRULE: [(flag, quantifier)]
        self.affixes = []        # (kind, flag, cross, [(strip, add, cond, flags)])
        self.words = []          # (stem, flags, tags)
        self.fill(rng)

    def fill(self, rng):
        a = self.alphabet
        special = []
        for name, f in (('NEEDAFFIX', 'N'), ('KEEPCASE', 'K'), ('NOSUGGEST', 'H'), ('FORBIDDENWORD', 'W')):
            if rng.random() < 0.3:
                self.flags[name] = f
                special.append(f)
        comp = []
        k = rng.random()
        if k < 0.2:
            self.flags['COMPOUNDFLAG'] = 'F'
            comp = ['F']
        elif k < 0.5:
            self.flags.update(COMPOUNDBEGIN='B', COMPOUNDEND='E')
            comp = ['B', 'E']
            if rng.random() < 0.5:
                self.flags['COMPOUNDMIDDLE'] = 'M'
                comp.append('M')
        elif k < 0.65:
            comp = ['X', 'Y']
            self.rules = [[(rng.choice(comp), rng.choice(['', '*', '?'])) for _ in range(rng.randint(1, 3))] for _ in range(2)]
        if comp:
            self.options.append('COMPOUNDMIN 1')
        if rng.random() < 0.7:
            self.options.append('TRY ' + a)
        if rng.random() < 0.2:
            self.options.append('KEY ' + a + '|' + a[::-1])
        if rng.random() < 0.4:
            self.options.append('MAXNGRAMSUGS ' + str(rng.choice([0, 2])))
        if rng.random() < 0.15:
            self.options.append('COMPLEXPREFIXES')
        if rng.random() < 0.15:
            self.options.append('CHECKCOMPOUNDDUP')
        if rng.random() < 0.1:
            self.options.append('LANG tr')
        if rng.random() < 0.25:
            self.tables.append(('REP', [f'{rword(a_rng(rng), a, 1, 2)} {rword(rng, a, 1, 2)}' for _ in range(2)]))
        if rng.random() < 0.2:
            self.tables.append(('MAP', [a[:2]]))
        if rng.random() < 0.2:
            self.tables.append(('ICONV', [f'{a[0]}{a[1]} {a[1]}']))
        if rng.random() < 0.15:
            self.tables.append(('BREAK', ['-', f'{a[0]}$']))
        sfx = 'SZ'[:rng.randint(0, 2)]
        pfx = 'P' if rng.random() < 0.5 else ''
        stems = [rword(rng, a, 1, 4) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.2:
            stems.append(stems[0] + '/' + stems[1])
        if rng.random() < 0.15:
            stems.insert(rng.choice([0, 0, len(stems)]), rng.choice(['12', '5' + a[0], '7', '12 ' + a[0], '3 ' + a[:2]]))
        if rng.random() < 0.15:
            stems.append(stems[0] + ' ' + stems[1])
        if rng.random() < 0.15:
            stems.append('/' + stems[0])
        if rng.random() < 0.3:
            stems[-1] = random_case(rng, stems[-1])
        if rng.random() < 0.5:
            rng.shuffle(stems)
        seen = set()
        for s in stems:
            if s.startswith('/') or s not in seen or rng.random() < 0.3:
                fl = subset(rng, list(sfx + pfx) + comp, 0.6) + subset(rng, special, 0.25)
                if s.startswith('/'):
                    fl = []
                tags = []
                if rng.random() < 0.2:
                    tags.append('po:noun')
                while rng.random() < 0.15 and not s.startswith('/'):
                    tags.append('ph:' + rword(rng, a, 2, 3))
                self.words.append((s, fl, tags))
                seen.add(s)
        for kind, fs in (('SFX', sfx), ('PFX', pfx)):
            for f in fs:
                cross = rng.random() < 0.8
                rows = []
                for r in affix_rows(rng, kind, f, cross, a, '', 2, [s for s in stems if '/' not in s and not s[:1].isdigit()]):
                    cont = subset(rng, list(sfx + pfx) + comp + special, 0.25)
                    rows.append((r.strip, r.add, r.cond, cont))
                self.affixes.append((kind, f, cross, rows))

    def probes(self, rng):
        a = self.alphabet
        ws = list(strings(a[:2], 3)) + [f'{len(self.words)} # words', f'{len(self.words)} words', '12', '12 a', '12 ' + a[0], '3 ' + a[:2]]
        stems = [w[0] for w in self.words]
        for s in stems:
            ws += [s, s.upper(), s.capitalize(), s.replace('/', ''), s + '/' + a[0], s.split('/')[0], mutate(rng, s, a), s + '\\']
        for kind, _f, _c, rows in self.affixes:
            for strip, add, _cond, _fl in rows:
                for s in stems:
                    t = s
                    if kind == 'SFX':
                        t = (s[:len(s) - len(strip)] if strip and s.endswith(strip) else s) + add
                    else:
                        t = add + (s[len(strip):] if strip and s.startswith(strip) else s)
                    ws.append(t)
        for _ in range(15):
            ws.append(rng.choice(stems) + rng.choice(stems))
            ws.append(rng.choice(ws) + rng.choice(ws)[:2])
        return [w for w in dict.fromkeys(ws) if len(w) < 10][:90]


def a_rng(rng):
    return rng


class Notation:
    """A way to write a content."""

    def __init__(self, rng, content, plain=False):
        self.rng = rng
        flags = set('NKHWFBMEXYSZP')
        self.fmt = 'short' if plain else rng.choice(['short', 'long', 'num', 'UTF-8', 'short'])
        if self.fmt == 'short':
            pool = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz' + rng.choice(['', '#~!$%&-_.@=+<>|^{}'])]
            self.map = {f: f for f in flags} if plain else dict(zip(sorted(flags), rng.sample(pool, len(flags))))
        elif self.fmt == 'UTF-8':
            self.map = dict(zip(sorted(flags), rng.sample('абвгдежзиклмнопαβγδεζηθéàüöñ', len(flags))))
        elif self.fmt == 'long':
            pool = [x + y for x in 'abAB1' for y in 'cdCD2']
            self.map = dict(zip(sorted(flags), rng.sample(pool, len(flags))))
        else:
            pool = [str(k) for k in (rng.sample(range(1000, 9999), 30) if rng.random() < 0.5 else range(100, 140))]
            self.map = dict(zip(sorted(flags), rng.sample(pool, len(flags))))
        text = ''.join([content.alphabet] + [w[0] for w in content.words])
        encs = ['UTF-8']
        if self.fmt != 'UTF-8':
            for e in ['ISO8859-1', 'ISO8859-2', 'ISO8859-15', 'KOI8-R', 'CP1251', 'ISO8859-5', 'ISO8859-7', None,
                      'ISO-8859-1', 'windows-1251', 'ISO8859-9']:
                try:
                    codec = tables.codec(tables.SYNONYMS.get(e, e) if e else 'cp1252')
                    (text + text.upper() + text.lower()).encode(codec)
                    encs.append(e)
                except UnicodeEncodeError:
                    pass
        self.encoding = 'UTF-8' if plain else rng.choice(encs)
        self.bom = not plain and self.encoding == 'UTF-8' and rng.random() < 0.3
        self.eol = '\n' if plain else rng.choice(['\n', '\n', '\r\n', '\r\n', '\r'])
        self.af = not plain and rng.random() < 0.4
        self.am = not plain and rng.random() < 0.4
        self.noise = not plain and rng.random() < 0.5
        self.count = plain or rng.random() < 0.6
        self.synonyms = not plain and rng.random() < 0.5
        self.twice = not plain and rng.random() < 0.3
        self.shuffle = not plain and rng.random() < 0.5
        self.last_eol = plain or rng.random() < 0.7
        self.setonly = not plain and self.fmt == 'UTF-8' and rng.random() < 0.3      # FLAG UTF-8 is enough

    def fl(self, flags):
        sep = ',' if self.fmt == 'num' else ''
        return sep.join(self.map[f] for f in flags)

    def junk(self):
        r = self.rng
        return r.choice(['', '# comment', '#SFX A Y 1', 'FOO bar', 'NAME Test dictionary', 'HOME http://x', 'VERSION 1', '   ', '\t',
                         'WORDCHARS 0123', '# TRY zzz', 'TRYOUT x'])

    def write(self, content):
        r = self.rng
        head = []
        if self.encoding and not self.setonly:
            if self.twice:
                head.append('SET ISO8859-1')
            head.append('SET ' + self.encoding)
        if self.fmt != 'short':
            head.append('FLAG ' + self.fmt)
        aliases = []

        def flags(fl):
            if not fl:
                return ''
            if not self.af:
                return self.fl(fl)
            key = self.fl(fl)
            if key not in aliases:
                aliases.append(key)
            return str(aliases.index(key) + 1)

        ams = []

        def tags(ts):
            if not ts or not self.am:
                return ' '.join(ts)
            key = ' '.join(ts)
            if key not in ams:
                ams.append(key)
            return str(ams.index(key) + 1)

        words = []
        for stem, fl, ts in content.words:
            s = stem
            if not s.startswith('/'):
                s = s.replace('/', '\\/')
            f = flags(fl)
            line = s + ('/' + f if f else '')
            t = list(ts)
            if self.noise and not t and r.random() < 0.4 and not stem.startswith('/'):
                t = [r.choice(['po:verb', 'st:abc', 'is:x is:y', 'xx:1', 'PO:noun', 'Is:x', 'a1:b'])]
            if t and not stem.startswith('/'):
                tt = tags(t)
                line += (r.choice(['\t', ' ', '  ', '\t\t', '\tfree text ', '\tx\t']) if ':' in tt.split()[0] else '\t') + tt
            elif self.noise and r.random() < 0.15 and not stem.startswith('/'):
                line += r.choice(['\t', '\tfree text', '\tx y:z', '\t/X', '\tnot po:x is:y'])
            words.append(line)
        groups = []
        for name, f in content.flags.items():
            n = SYNONYM.get(name, name) if self.synonyms else name
            g = [f'{n} {self.map[f]}']
            if self.twice and r.random() < 0.4:
                g.insert(0, f'{n} {self.fl("Z")}')
            groups.append(g)
        for o in content.options:
            g = [o]
            if self.twice and ' ' in o and r.random() < 0.4:
                g.insert(0, o.split()[0] + ' ' + ('9' if o.split()[1].isdigit() else 'zz'))
            groups.append(g)
        for name, rows in content.tables:
            groups.append([f'{name} {len(rows)}'] + [f'{name} {x}' + (r.choice(['', ' # c', '  ']) if self.noise else '') for x in rows])
        if content.rules:
            rows = []
            for rule in content.rules:
                if self.fmt in ('long', 'num'):
                    rows.append(''.join(f'({self.map[f]}){q}' for f, q in rule))
                else:
                    rows.append(''.join(self.map[f] + q for f, q in rule))
            groups.append([f'COMPOUNDRULE {len(rows)}'] + [f'COMPOUNDRULE {x}' for x in rows])
        affs = []
        for kind, f, cross, rows in content.affixes:
            g = [f"{kind} {self.map[f]} {'Y' if cross else 'N'} {len(rows)}"]
            for strip, add, cond, cont in rows:
                c = flags(cont)
                g.append(f"{kind} {self.map[f]} {strip or '0'} {(add or '0') + ('/' + c if c else '')} {cond}"
                         + (r.choice(['', ' po:x', '\tis:plural', ' # c']) if self.noise else ''))
            affs.append(g)
        if self.shuffle:
            r.shuffle(groups)
        if aliases:
            head += [f'AF {len(aliases)}'] + [f'AF {x}' + (f' # {k + 1}' if self.noise else '') for k, x in enumerate(aliases)]
        if ams:
            head += [f'AM {len(ams)}'] + [f'AM {x}' for x in ams]
        groups = groups + affs if not self.shuffle else affs + groups if r.random() < 0.5 else groups + affs
        lines = list(head)
        for g in groups:
            if self.noise and r.random() < 0.3:
                lines.append(self.junk())
            lines += g
            if self.noise and r.random() < 0.2:
                lines[-1] += r.choice([' ', '\t', '  '])
        if self.noise and r.random() < 0.5:
            lines.insert(0, self.rng.choice(['# first line', '', '#']))
        dic = ([str(len(words))] if self.count or re.match(r'\d+(\s|$)', words[0]) else []) + words
        if self.noise:
            dic = [x for w in dic for x in ([w, ''] if r.random() < 0.15 else [w])]
            if self.count and r.random() < 0.3:
                dic[0] += r.choice([' # words', ' words', '\twords'])
        aff = self.eol.join(lines) + (self.eol if self.last_eol else '')
        dic = self.eol.join(dic) + (self.eol if self.last_eol else '')
        codec = tables.codec(tables.SYNONYMS.get(self.encoding, self.encoding) if self.encoding else 'cp1252')
        res = []
        for t in (aff, dic):
            b = t.encode(codec)
            if self.bom and r.random() < 0.8:
                b = b'\xef\xbb\xbf' + b
            res.append(b)
        return res


C09_ALPHABETS = ['ab', 'abé', 'абв', 'αβγ', 'ačž', 'aèß', 'ağı', 'ab', 'ya']


def c09(job, rng, n):
    for i in range(n):
        content = Content(rng, C09_ALPHABETS[i % len(C09_ALPHABETS)])
        probes = content.probes(rng)
        sugs = [mutate(rng, rng.choice(content.words)[0].replace('/', ''), content.alphabet) for _ in range(2)]
        evs = []
        base = None
        for k in range(5):
            nota = Notation(rng, content, plain=k == 0)
            aff, dic = nota.write(content)
            enc = nota.encoding or 'Windows-1252'
            enc = tables.SYNONYMS.get(enc, enc)
            f = job.file(aff, dic, enc)
            base = base or f
            evs.append({'op': 'open', 'slot': 1, 'file': f, 'content': base, 'j': 'both'})
            evs.append({'op': 'scan', 'slot': 1, 'ws': [cps(w) for w in probes], 'j': 'both'})
            for w in sugs:
                evs.append({'op': 'suggest', 'slot': 1, 'w': cps(w), 'j': 'learn'})
        job.chars.update(map(ord, content.alphabet + content.alphabet.upper() + content.alphabet.lower()))
        job.run(evs, 'notations')


# --- C10 -----------------------------------------------------------------------------------------
def small_dict(rng, alphabet='ab'):
    d = Dict()
    d.add('TRY ' + alphabet)
    if rng.random() < 0.4:
        d.add('NOSUGGEST H')
    if rng.random() < 0.4:
        d.table('REP', [f'{rword(rng, alphabet, 1, 2)} {rword(rng, alphabet, 1, 2)}'])
    if rng.random() < 0.3:
        d.table('ICONV', conversions(rng, alphabet))
    if rng.random() < 0.3:
        d.table('MAP', [alphabet])
    stems = [rword(rng, alphabet, 1, 4) for _ in range(rng.randint(2, 6))]
    for s in stems:
        d.word(s, ''.join(subset(rng, 'SPH', 0.4)), 'ph:' + rword(rng, alphabet, 2, 3) if rng.random() < 0.15 else '')
    d.affixes('SFX', 'S', True, affix_rows(rng, 'SFX', 'S', True, alphabet, '', 2, stems))
    d.affixes('PFX', 'P', True, affix_rows(rng, 'PFX', 'P', True, alphabet, '', 2, stems))
    if rng.random() < 0.3:
        d.add('COMPOUNDFLAG H', 'COMPOUNDMIN 1')
    return d


def bundled_names():
    base = os.path.join(REPO, 'spylls', 'hunspell', 'data')
    res = []
    for name, folder in (('en_US', 'en'), ('sv_SE', 'sv'), ('ru', 'ru')):
        path = os.path.join(base, folder, name)
        if os.path.exists(path + '.aff'):
            res.append((name, path))
    return res


def asks(rng, slot, words, sugs, j='learn'):
    evs = [{'op': 'scan', 'slot': slot, 'ws': [cps(w) for w in words], 'j': j}]
    return evs + [{'op': 'suggest', 'slot': slot, 'w': cps(w), 'j': j} for w in sugs]


def c10(job, rng, n):
    for i in range(n):
        # three contents; the same name in several places
        enc = rng.choice(['UTF-8', 'UTF-8', 'ISO8859-1', 'KOI8-R', 'default'])
        alphabet = {'UTF-8': rng.choice(['ab', 'aé', 'жа']), 'ISO8859-1': 'aé', 'KOI8-R': 'жа', 'default': 'aé'}[enc]
        files = []
        words, sugs = [], []
        for _k in range(3):
            d = small_dict(rng, alphabet)
            eol = rng.choice(['\n', '\n', '\r\n'])
            header = '' if enc == 'default' else f'SET {enc}'
            aff, dic = d.aff(header).replace('\n', eol), d.dic().replace('\n', eol)
            codec = 'cp1252' if enc == 'default' else tables.codec(enc)
            if codec in ('cp1252', 'UTF-8') and rng.random() < 0.25:        # a byte which is nothing in the encoding
                stray = alphabet[0] + {'UTF-8': '\udcff', 'cp1252': '\udc81'}[codec] + alphabet[1]
                dic += stray + '/S' + eol
                words += [stray, stray.upper(), alphabet[0] + '\ufffd' + alphabet[1], alphabet[0] + alphabet[1]]
            aff, dic = aff.encode(codec), dic.encode(codec, 'surrogateescape')
            if enc == 'UTF-8' and rng.random() < 0.2:
                aff, dic = b'\xef\xbb\xbf' + aff, b'\xef\xbb\xbf' + dic
            files.append(job.file(aff, dic, 'Windows-1252' if enc == 'default' else enc, opaque=True))
            words += d.forms(rng, 10, 1)
            sugs.append(mutate(rng, rng.choice(d.words)[0], alphabet))
        words = list(dict.fromkeys(words + list(strings(alphabet, 2))))[:50]
        sugs = sugs[:2]
        name = rng.choice(['xx', 'en_US', 'de.affix', 'ru', 'sv_SE', 'a.aff.b', 'pl', 'zip', 'affdic'])
        items, opens = [], []
        dirs = rng.sample(['d1', 'd2', 'd1/sub', 'my.aff.dir', 'd3', 'ru'], 4)
        for k, dd in enumerate(dirs):
            items.append({'kind': 'dir', 'path': dd})
            if rng.random() < 0.6:
                items.append({'kind': 'pair', 'path': f'{dd}/{name}', 'file': rng.choice(files)})
                opens.append({'how': 'files', 'path': f'{dd}/{name}'})
            if rng.random() < 0.3:
                items.append({'kind': 'pair', 'path': f'{dd}/other', 'file': rng.choice(files)})
            if rng.random() < 0.4:
                items.append({'kind': 'pair', 'path': f'{dd}/{name}_ext', 'file': rng.choice(files)})
        opens.append({'how': 'system', 'path': name, 'dirs': dirs})
        opens.append({'how': 'system', 'path': name, 'dirs': rng.sample(dirs, rng.randint(1, 3)) + ['nowhere']})
        opens.append({'how': 'system', 'path': 'missing', 'dirs': dirs})
        for k in range(2):
            f = rng.choice(files)
            inner = rng.choice(['', 'dict/', 'a/b/c/', 'x.dic.d/', 'en.aff/'])
            nm = rng.choice([name, 'dict', 'en_US'])
            entries = [(f'{inner}{nm}.aff', 'aff'), (f'{inner}{nm}.dic', 'dic')]
            if rng.random() < 0.4:
                entries = [(f'other/{nm}.aff', 'aff'), (f'{inner}{nm}.dic', 'dic')]
            others = [('README.txt', 'words'), ('META-INF/manifest.xml', '<x/>'), ('icon.png', 'x'), ('notes.aff.txt', 'SET x'),
                      ('dictionary.dicx', '1'), ('install.rdf', '')]
            entries += rng.sample(others, rng.randint(0, 4))
            rng.shuffle(entries)
            items.append({'kind': 'zip', 'path': f'z{k}.' + rng.choice(['oxt', 'zip', 'xpi']), 'file': f, 'entries': entries,
                          'deflate': rng.random() < 0.6})
            opens.append({'how': 'zip', 'path': items[-1]['path']})
        if rng.random() < 0.5:
            items.append({'kind': 'pair', 'path': f'here/{name}', 'file': rng.choice(files)})
            opens.append({'how': 'name', 'path': name, 'cwd': 'here'})
        evs = []
        for f in files:
            evs.append({'op': 'open', 'slot': f, 'file': f, 'j': 'learn'})
            evs += asks(rng, f, words, sugs)
        evs.append({'op': 'layout', 'items': items, 'j': 'learn'})
        for k, o in enumerate(opens):
            evs.append({'op': 'openat', 'slot': 0, 'j': 'learn', 'mayfail': True, **o})
            found = o['how'] != 'system' or any(it['kind'] == 'pair' and it['path'] in [f'{dd}/{o["path"]}' for dd in o['dirs']]
                                                for it in items)
            if found:
                evs += asks(rng, 0, words, sugs)
        job.run(evs, 'ways to open')
    # the distributed dictionaries, by name and by path; a file of that name in the current directory goes first
    names = bundled_names()
    for name, path in names:
        if name == 'ru' and n < 2000:
            continue
        with open(path + '.aff', 'rb') as f:
            aff = f.read()
        with open(path + '.dic', 'rb') as f:
            dic = f.read()
        number = job.file(aff, dic, 'UTF-8', opaque=True)
        job.bundled.append({'name': name, 'file': number})
        d = small_dict(rng)
        local = job.file(d.aff(), d.dic(), opaque=True)
        words = ['a', 'spell', 'spelling', 'helo', 'och', 'hus', 'London', 'london', 'ab', 'xyzzy', 'unhappily', 'привет', 'это', 'ёлка', 'bilen', 'äpple']
        sugs = [] if name == 'ru' else ['spelllng', 'hsu']
        evs = [{'op': 'layout', 'items': [{'kind': 'pair', 'path': f'here/{name}', 'file': local}, {'kind': 'dir', 'path': 'empty'},
                                          {'kind': 'pair', 'path': f'full/{name}', 'file': number}]}]
        opens = [{'how': 'files', 'path': f'full/{name}'}, {'how': 'name', 'path': name, 'cwd': 'empty'},
                 {'how': 'name', 'path': name, 'cwd': 'here'}, {'how': 'files', 'path': f'here/{name}'}]
        for o in opens:
            evs.append({'op': 'openat', 'slot': 0, 'timeout': 120, **o})
            evs += asks(rng, 0, words, sugs)
        for ev in evs:
            ev['j'] = 'learn'
            ev.setdefault('timeout', 120)
        job.run(evs, 'distributed dictionary ' + name)


# --- C19 -----------------------------------------------------------------------------------------
def rich_dict(rng):
    d = small_dict(rng, 'abc')
    k = rng.random()
    if k < 0.25:
        d.table('PHONE', ['A A', 'B B', 'CA K', 'C C'])
    if k > 0.8:
        d.add('CHECKSHARPS')
    elif k > 0.7:
        d.add('LANG tr')
    if rng.random() < 0.3:
        d.add('BREAK 1', 'BREAK a')
    if rng.random() < 0.3:
        d.table('OCONV', ['a b'])
    if rng.random() < 0.3:
        d.add('KEEPCASE K')
        d.word(rword(rng, 'abc', 2, 3).capitalize(), 'K')
    if rng.random() < 0.2:
        d.add('FORBIDDENWORD W')
        d.word(rword(rng, 'abc', 2, 3), 'W')
    if rng.random() < 0.3:
        d.add('CHECKCOMPOUNDREP')
    return d


def c19(job, rng, n):
    for i in range(n):
        files, dicts = [], []
        nd = rng.randint(1, 3)
        for _k in range(nd):
            d = rich_dict(rng)
            if dicts and rng.random() < 0.5:        # the same words, other rules
                d.words = list(dicts[0].words)
            dicts.append(d)
            files.append(job.file(d.aff(), d.dic(), opaque=True))
        words = []
        for d in dicts:
            words += [mutate(rng, w[0], 'abc') for w in d.words[:3]] + [rng.choice(d.forms(rng, 6, 1))]
        words = list(dict.fromkeys(words))
        rng.shuffle(words)
        words = words[:6]
        words += [random_case(rng, words[0]), words[0] + '-' + words[-1]]
        words = list(dict.fromkeys(words))
        evs = []
        for f in files:
            for w in words:
                for op in ('lookup', 'suggest'):
                    evs.append({'op': 'fresh', 'file': f, 'req': {'op': op, 'w': cps(w)}})
        slots = []
        order = list(files) + ([rng.choice(files)] if rng.random() < 0.5 else [])
        rng.shuffle(order)
        for k, f in enumerate(order):
            evs.append({'op': 'open', 'slot': k, 'file': f})
            slots.append(k)
        its = []
        kind = i % 3
        if kind < 2:
            count = 0
            for _k in range(rng.randint(15, 45)):
                r = rng.random()
                slot, w = rng.choice(slots), cps(rng.choice(words))
                if r < 0.3:
                    evs.append({'op': 'lookup', 'slot': slot, 'w': w})
                elif r < 0.45:
                    evs.append({'op': 'suggest', 'slot': slot, 'w': w})
                elif r < 0.62 or not its:
                    count += 1
                    its.append(count)
                    evs.append({'op': 'start', 'slot': slot, 'it': count, 'w': w})
                elif r < 0.92:
                    evs.append({'op': 'next', 'it': rng.choice(its)})
                elif r < 0.95:
                    it = rng.choice(its)
                    its.remove(it)
                    evs.append({'op': 'drop', 'it': it})
                elif len(slots) > 1 and r < 0.97:
                    slot = slots.pop()
                    evs.append({'op': 'forget', 'slot': slot})
                else:
                    k = 100 + len(evs)
                    evs.append({'op': 'open', 'slot': k, 'file': rng.choice(files)})
                    slots.append(k)
            for it in its[:3]:
                evs += [{'op': 'next', 'it': it}] * 3
        else:
            lists = []
            for t in range(rng.randint(2, 4)):
                reqs = []
                for _k in range(8):
                    op = rng.choice(['lookup', 'suggest', 'suggest'])
                    reqs.append({'op': op, 'slot': rng.choice(slots), 'w': cps(rng.choice(words))})
                lists.append(reqs)
            evs.append({'op': 'threads', 'lists': lists, 'interval': rng.choice([1e-6, 1e-5, 1e-4])})
            evs += [{'op': 'suggest', 'slot': s, 'w': cps(w)} for s in slots[:2] for w in words[:3]]
        for ev in evs:
            ev['j'] = 'learn'
        job.run(evs, 'history' if kind < 2 else 'threads')
    # many words: each is asked twice, in another order, in another dictionary, and once in a process of its own
    for _ in range(n // 12):
        d = rich_dict(rng)
        f = job.file(d.aff(), d.dic(), opaque=True)
        words = d.forms(rng, 60) + [rword(rng, 'abc', 1, 5) for _k in range(250)]
        words += [random_case(rng, rng.choice(words)) for _k in range(40)] + [rng.choice(words) + '-' + rng.choice(words) for _k in range(20)]
        words = list(dict.fromkeys(words))
        asked = rng.sample(words, 30)
        few = rng.sample(words, 4)
        evs = [{'op': 'fresh', 'file': f, 'req': {'op': op, 'w': cps(w)}} for w in few for op in ('lookup', 'suggest')]
        for slot in range(3):
            if slot < 2:
                evs.append({'op': 'open', 'slot': slot, 'file': f})
            rng.shuffle(words)
            rng.shuffle(asked)
            evs += asks(rng, slot % 2, words, asked + few)
        for ev in evs:
            ev['j'] = 'learn'
        job.run(evs, 'many words')
    # other contents come to the same place
    for _ in range(n // 12):
        dicts = [rich_dict(rng) for _k in range(2)]
        files = [job.file(d.aff(), d.dic(), opaque=True) for d in dicts]
        words = list(dict.fromkeys(w for d in dicts for w in d.forms(rng, 10)))
        sugs = [mutate(rng, w, 'abc') for w in rng.sample(words, 3)]
        evs = []
        for k, f in enumerate(files):
            evs += [{'op': 'open', 'slot': 8 + k, 'file': f}] + asks(rng, 8 + k, words, sugs)
        for k in (0, 1, 0):
            evs.append({'op': 'layout', 'items': [
                {'kind': 'pair', 'path': 'd/xx', 'file': files[k]},
                {'kind': 'zip', 'path': 'z.zip', 'file': files[1 - k], 'entries': [('xx.aff', 'aff'), ('xx.dic', 'dic')]}]})
            ways = [{'how': 'files', 'path': 'd/xx'}, {'how': 'zip', 'path': 'z.zip'}, {'how': 'system', 'path': 'xx', 'dirs': ['d']},
                    {'how': 'name', 'path': 'xx', 'cwd': 'd'}]
            rng.shuffle(ways)
            for slot, way in enumerate(ways):
                evs += [{'op': 'openat', 'slot': slot, **way}] + asks(rng, slot, words, sugs)
        for ev in evs:
            ev['j'] = 'learn'
        job.run(evs, 'changed files')


def abstract_history(job, rng, groups):
    """Runs of the abstract histories (spec/History.tla) with real dictionaries; a run has several of them in turn."""
    for group in groups:
        dicts = [rich_dict(rng)]
        dicts.append(rich_dict(rng))
        if rng.random() < 0.5:
            dicts[1].words = list(dicts[0].words)
        files = [job.file(d.aff(), d.dic(), opaque=True) for d in dicts]
        words = [mutate(rng, rng.choice(dicts[0].words)[0], 'abc'), mutate(rng, rng.choice(dicts[1].words)[0], 'abc')]
        if rng.random() < 0.3:
            words[1] = random_case(rng, words[0])
        evs = []
        for f in files:
            for w in dict.fromkeys(words):
                for op in ('lookup', 'suggest'):
                    evs.append({'op': 'fresh', 'file': f, 'req': {'op': op, 'w': cps(w)}})
        for hist in group:
            for e in hist:
                ev = dict(e)
                if 'w' in ev:
                    ev['w'] = cps(words[ev['w'] - 1])
                if 'file' in ev:
                    ev['file'] = files[ev['file'] - 1]
                evs.append(ev)
        for ev in evs:
            ev['j'] = 'learn'
        job.run(evs, 'histories of the model')


def c19_model(job, rng, scratch, deep):
    menu = {'files': 2, 'words': 2, 'slots': 2, 'iterators': 1 if not deep else 2, 'longest': 3, 'depth': 4}
    short, st1 = model.behaviours('History', menu, scratch)
    short.sort(key=str)
    rng.shuffle(short)
    abstract_history(job, rng, [short[i:i + 40] for i in range(0, len(short), 40)])
    menu = {'files': 2, 'words': 2, 'slots': 3, 'iterators': 3, 'longest': 3, 'depth': 60}
    long, st2 = model.behaviours('History', menu, scratch, workers=1,
                                 extra=['-simulate', f'num={400 if deep else 100}', '-depth', '62', '-seed', str(rng.randrange(10 ** 9))])
    # all the alternatives of the last step are written: one of them is enough
    long = list({str(h[:-1]): h for h in long}.values())
    st2['behaviours'] = len(long)
    abstract_history(job, rng, [[h] for h in long])
    return [{**st1, 'name': 'all short histories'}, {**st2, 'name': 'long random histories'}]


def c10_model(job, rng, scratch, deep):
    dirs = ['d1', 'd2', 'd3']
    orders = [['d1', 'd2', 'd3'], ['d3', 'd1', 'd2'], ['d2', 'd3'], ['d1'], ['d3', 'nowhere', 'd2']]
    menu = {'dirs': dirs, 'names': ['xx', 'xx_YY'] if not deep else ['xx', 'xx_YY', 'x'], 'files': 2 if not deep else 1, 'orders': orders}
    found, st = model.behaviours('Layouts', menu, scratch)
    found.sort(key=str)
    for k in range(0, len(found), 9):
        dicts = [small_dict(rng, 'ab') for _k in range(menu['files'])]
        files = [job.file(d.aff(), d.dic(), opaque=True) for d in dicts]
        words = list(dict.fromkeys([w for d in dicts for w in d.forms(rng, 6, 1)] + list(strings('ab', 2))))[:25]
        head = []
        for f in files:
            head.append({'op': 'open', 'slot': f, 'file': f})
            head += asks(rng, f, words, [])
        for lay in found[k:k + 9]:
            items = [{'kind': 'dir', 'path': dd} for dd in dirs]
            items += [{'kind': 'pair', 'path': it['path'], 'file': files[it['file'] - 1]} for it in lay['items']]
            evs = [dict(e) for e in head] + [{'op': 'layout', 'items': items}]
            for rq in lay['rqs']:
                evs.append({'op': 'openat', 'how': 'system', 'path': rq['path'], 'dirs': rq['dirs'], 'slot': 0, 'mayfail': True})
                if rq['file']:
                    evs += asks(rng, 0, words, [])
            for it in lay['items']:
                evs.append({'op': 'openat', 'how': 'files', 'path': it['path'], 'slot': 0, 'mayfail': True})
                evs += asks(rng, 0, words, [])
            for ev in evs:
                ev['j'] = 'learn'
            job.run(evs, 'arrangements of the model')
    return [{**st, 'name': 'arrangements of files'}]


# --- C20 -----------------------------------------------------------------------------------------
ODD = ['', ' ', '  ', '-', '--', '---', '-' * 12, '.', '..', '1', '12', '1.', '.1', "'", '\t', 'a b', ' a', 'a ', 'İ', 'ı', 'ß', 'ẞ', 'ŉ', 'ǰ',
       'ﬁ', 'ﬀ', 'ΐ', 'ᾳ', 'ǅ', 'ǆ', 'Ǆ', 'ªº', 'ͅ', 'i̇', 'İİ', 'ßß', 'SS', 'ss', 'SSSS', '\ud800', '\udc80', 'a\udcffb', '\U0001F600',
       '\U00010400', '\U00010428', '‍', '­', '﻿', '�', '\x00', 'a\x00b', '\x7f', '\x85', ' ', '１２', '٣', '½', '²',
       'aB', 'Ab', 'AB', 'aBc', 'ABc', 'a-B', 'A-b', 'a.b', 'a/b', '/', '\\', 'a\\', '^', '$', '^$', '*', '?', '+', '(', ')', '[', ']', '{', '}',
       '|', '_', '#', '%', '&', '~', '`', '"', '<', '>', '=', ',', ';', ':', '!', '@', 'a*', '(a)', '[a', 'a]', 'ab(', '中文', '한국', 'ก', 'ا',
       'é', 'ﬃ', 'ŉa', 'aŉ', 'ǅa', 'aǅ', 'ΌΣ'[:1], 'a' * 40, 'ab' * 12, '-a-', 'a--b', 'a-', '-b', 'A-', '1-a', '1a', 'a1']


def odd_word(rng, alphabet):
    k = rng.random()
    if k < 0.5:
        return rng.choice(ODD)
    if k < 0.75:
        return rng.choice(ODD) + rword(rng, alphabet, 1, 2) if rng.random() < 0.5 else rword(rng, alphabet, 1, 2) + rng.choice(ODD)
    return ''.join(rng.choice(ODD)[:2] for _ in range(rng.randint(1, 3)))


PRINTABLE = [chr(c) for c in range(33, 127)]


def special_text(rng, lo=1, hi=2, avoid='', letters='ab'):
    pool = [c for c in SPECIALS + '-.#%&~"<>=,;:!@' + "'" if c not in avoid]
    n = rng.randint(lo, hi)
    return ''.join(rng.choice(pool) if rng.random() < 0.55 else rng.choice(letters) for _ in range(n))


def c20(job, rng, n):
    for i in range(n):
        d = Dict()
        alphabet = rng.choice(['ab', 'aß', 'iı', 'aé', 'ab-'])
        if rng.random() < 0.8:
            d.add('TRY ' + rng.choice(['ab', 'aiß', "ab-'", 'abc']))
        k = rng.random()
        if k < 0.2:
            d.add('CHECKSHARPS')
        elif k < 0.35:
            d.add('LANG tr_TR')
        if rng.random() < 0.3:
            d.add('KEEPCASE K')
        if rng.random() < 0.3:
            d.add('FORCEUCASE U')
        if rng.random() < 0.4:
            d.add('COMPOUNDFLAG F', 'COMPOUNDMIN ' + rng.choice(['1', '1', '2', '3']))
            if rng.random() < 0.5:
                d.add(rng.choice(['CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDCASE', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDDUP']))
        elif rng.random() < 0.3:
            d.add('COMPOUNDMIN 1')
            d.table('COMPOUNDRULE', [rng.choice(['F*', 'FU?', 'F?U*F', '.*F', '^F', '+F', '|F'])])
        if rng.random() < 0.3:
            d.table('REP', [f'{special_text(rng, avoid="_^$#")} {special_text(rng, avoid="#")}' for _k in range(2)])
        if rng.random() < 0.25:
            d.table('ICONV', [f'{special_text(rng, avoid="_#")} {special_text(rng, avoid="#")}'])
        if rng.random() < 0.25:
            d.table('OCONV', [f'{special_text(rng, avoid="_#")} {special_text(rng, avoid="#")}'])
        if rng.random() < 0.25:
            d.table('BREAK', list(dict.fromkeys(special_text(rng, avoid='_^$#') for _k in range(2))))
        if rng.random() < 0.2:
            d.add('IGNORE ' + special_text(rng, avoid='#'))
        if rng.random() < 0.2:
            d.add('KEY ' + special_text(rng, 2, 4, avoid='#'))
        if rng.random() < 0.2:
            d.table('MAP', [special_text(rng, 2, 3, avoid='()#')])
        if rng.random() < 0.3:
            d.add('MAXNGRAMSUGS ' + rng.choice(['0', '1', '10']))
        if rng.random() < 0.2:
            d.table('PHONE', ['A B', 'B _', 'AB- A'])
        if rng.random() < 0.15:
            d.add('COMPLEXPREFIXES')
        if rng.random() < 0.15:
            d.table('CHECKCOMPOUNDPATTERN', ['a b', 'b/F a'])
        stems = [rword(rng, alphabet, 1, 3) for _k in range(rng.randint(0, 4))]
        stems += [s for s in (special_text(rng, 1, 3, avoid='/#') for _k in range(rng.randint(0, 2))) if not s[:1].isspace()]
        for s in stems:
            w = random_case(rng, s)
            d.words.append((w, ''.join(subset(rng, 'SPFKU', 0.4)), ''))
        if rng.random() < 0.7:
            for kind, f in (('SFX', 'S'), ('PFX', 'P')):
                rows = []
                for _k in range(2):
                    add = special_text(rng, 0, 2, avoid='/#', letters=alphabet)
                    strip = special_text(rng, 0, 1, avoid='/#', letters=alphabet) if rng.random() < 0.5 else ''
                    rows.append(Affix(kind, f, True, strip, add if add != '0' else 'a', rng.choice(['.', 'a', '[^b]', '[ab]'])))
                d.affixes(kind, f, True, rows)
        words = [odd_word(rng, alphabet) for _k in range(25)]
        words += d.forms(rng, 8, 1) + [mutate(rng, f, SPECIALS + alphabet) for f in d.forms(rng, 4, 1)]
        words = [w for w in words if '\n' not in w and '\r' not in w]
        words = list(dict.fromkeys(words))
        job.simple(d.aff(), d.dic(), scan=words, suggest=[w for w in rng.sample(words, min(8, len(words))) if len(w) < 20],
                   note='any strings')
