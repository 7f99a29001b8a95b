"""Building blocks of random dictionaries."""

import itertools


def strings(alphabet, longest, shortest=1):
    for n in range(shortest, longest + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def rword(rng, alphabet, lo, hi):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def subset(rng, items, p=0.5):
    return [x for x in items if rng.random() < p]


class Affix:
    def __init__(self, kind, flag, cross, strip, add, cond, flags=''):
        self.kind, self.flag, self.cross = kind, flag, cross
        self.strip, self.add, self.cond, self.flags = strip, add, cond, flags

    def row(self):
        add = (self.add or '0') + (('/' + self.flags) if self.flags else '')
        return f"{self.kind} {self.flag} {self.strip or '0'} {add} {self.cond}"


class Dict:
    """Content of a dictionary with single-character flags."""

    def __init__(self):
        self.lines = []          # plain directives, in order
        self.tables = []         # (kind, flag, cross, [Affix])
        self.words = []          # (stem, flags)

    def add(self, *lines):
        self.lines += lines

    def table(self, name, rows):
        self.lines.append(f'{name} {len(rows)}')
        self.lines += [f'{name} {r}' for r in rows]

    def word(self, stem, flags='', data=''):
        self.words.append((stem, flags, data))

    def affixes(self, kind, flag, cross, rows):
        self.tables.append((kind, flag, cross, rows))

    def aff(self, header='SET UTF-8'):
        out = [header] if header else []
        out += self.lines
        for kind, flag, cross, rows in self.tables:
            out.append(f"{kind} {flag} {'Y' if cross else 'N'} {len(rows)}")
            out += [r.row() for r in rows]
        return '\n'.join(out) + '\n'

    def dic(self, count=True):
        out = [str(len(self.words))] if count else []
        for stem, flags, data in self.words:
            line = stem.replace('/', '\\/') + (('/' + ''.join(flags)) if flags else '')
            out.append(line + (('\t' + data) if data else ''))
        return '\n'.join(out) + '\n'

    def forms(self, rng, limit=60, depth=2):
        """Texts which may be forms: affixes applied at random, conditions and flags mostly ignored."""
        res = []
        all_rows = [r for t in self.tables for r in t[3]]
        for stem, _f, _d in self.words:
            res.append(stem)
        if not all_rows or not self.words:
            return res
        for _ in range(limit):
            t = rng.choice(self.words)[0]
            for _k in range(rng.randint(1, depth + 1)):
                r = rng.choice(all_rows)
                strip = r.strip
                if r.kind == 'SFX':
                    if strip and t.endswith(strip):
                        t = t[:-len(strip)]
                    t = t + r.add
                else:
                    if strip and t.startswith(strip):
                        t = t[len(strip):]
                    t = r.add + t
            res.append(t)
        return res


def condition(rng, alphabet):
    def one():
        k = rng.random()
        if k < 0.35:
            return rng.choice(alphabet)
        if k < 0.55:
            return '.'
        chars = ''.join(subset(rng, alphabet, 0.5)) or rng.choice(alphabet)
        return f'[{chars}]' if k < 0.78 else f'[^{chars}]'
    k = rng.random()
    if k < 0.45:
        return '.'
    if k < 0.8:
        return one()
    return one() + one()


def affix_rows(rng, kind, flag, cross, alphabet, flags='', maxrows=3, stems=()):
    rows = []
    for _ in range(rng.randint(1, maxrows)):
        strip = ''
        if rng.random() < 0.45:
            if stems and rng.random() < 0.7:
                s = rng.choice(stems)
                n = 1 if rng.random() < 0.7 else min(2, len(s))
                strip = s[-n:] if kind == 'SFX' else s[:n]
            else:
                strip = rng.choice(alphabet)
        add = rword(rng, alphabet, 0 if rng.random() < 0.15 else 1, 2)
        if rng.random() < 0.35 and strip:      # condition naming what is stripped
            cond = strip if len(strip) < 2 or rng.random() < 0.6 else strip[-1:] if kind == 'SFX' else strip[:1]
        else:
            cond = condition(rng, alphabet)
        cont = ''.join(subset(rng, flags, 0.3)) if rng.random() < 0.5 else ''
        rows.append(Affix(kind, flag, cross, strip, add, cond, cont))
    return rows


def mutate(rng, word, alphabet):
    if not word:
        return rng.choice(alphabet)
    i = rng.randrange(len(word))
    k = rng.randrange(6)
    if k == 0:
        return word[:i] + word[i + 1:]
    if k == 1:
        return word[:i] + rng.choice(alphabet) + word[i:]
    if k == 2:
        return word[:i] + rng.choice(alphabet) + word[i + 1:]
    if k == 3 and len(word) > 1:
        i = min(i, len(word) - 2)
        return word[:i] + word[i + 1] + word[i] + word[i + 2:]
    if k == 4:
        return word[:i] + word[i] + word[i:]
    return word + rng.choice(alphabet)
