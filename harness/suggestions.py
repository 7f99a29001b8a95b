"""Scenarios about suggestions: C11-C18, C21."""

from gen import Affix, Dict, affix_rows, mutate, rword, strings, subset
from lookups import compound_dict, compound_flags, conversions, random_case


# --- edits, on purpose also a little beyond those which are documented ------------------------------
def edits(w, alphabet, key=''):
    """Texts near w, by kind."""
    n = len(w)
    out = {k: [] for k in ('swap', 'double', 'far', 'key', 'extra', 'missing', 'move', 'wrong', 'pair', 'split', 'upper')}
    for i in range(n - 1):
        out['swap'].append(w[:i] + w[i + 1] + w[i] + w[i + 2:])
    for i in range(n):
        for j in range(i + 2, n):
            out['far'].append(w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:])
    for i in range(n - 1):
        for j in range(i + 2, n - 1):
            t = list(w)
            t[i], t[i + 1], t[j], t[j + 1] = t[i + 1], t[i], t[j + 1], t[j]
            out['double'].append(''.join(t))
    for i in range(n):
        out['key'].append(w[:i] + w[i].upper() + w[i + 1:])
        for p, c in enumerate(key):
            if c == w[i]:
                for q in (p - 1, p + 1):
                    if 0 <= q < len(key):
                        out['key'].append(w[:i] + key[q] + w[i + 1:])
        out['extra'].append(w[:i] + w[i + 1:])
        for c in alphabet:
            out['wrong'].append(w[:i] + c + w[i + 1:])
        rest = w[:i] + w[i + 1:]
        for j in range(n):
            out['move'].append(rest[:j] + w[i] + rest[j:])
    for i in range(n + 1):
        for c in alphabet:
            out['missing'].append(w[:i] + c + w[i:])
    for i in range(n - 1):
        out['pair'].append(w[:i] + w[i + 2:])
        out['pair'].append(w[:i + 2] + w[i:i + 2] + w[i + 2:])
    for i in range(1, n):
        out['split'].append(w[:i] + ' ' + w[i:])
        out['split'].append(w[:i] + '-' + w[i:])
    out['upper'] += [w.upper(), w.capitalize()]
    return {k: [x for x in dict.fromkeys(v) if x and x != w and '|' not in x] for k, v in out.items()}


def near_words(rng, w, alphabet, key, n, kinds=None):
    es = edits(w, alphabet, key)
    kinds = [k for k in (kinds or es) if es[k]]
    return [rng.choice(es[rng.choice(kinds)]) for _ in range(n)] if kinds else []


TRIES = ['ab', 'abc', 'cba', 'bc', 'xab', '', 'a-b', 'eab', 'cb-']
KEYS = ['abc|xyz', 'bac', 'a|b|c', 'xaybz', 'abab', 'cab|bc|', 'aabb']


def edit_dict(rng, w, alphabet, n_near=6, kinds=None, affixed=None):
    """A dictionary of words near to w."""
    d = Dict()
    t = rng.choice(TRIES)
    if t:
        d.add('TRY ' + t)
    key = rng.choice(KEYS + [''])
    if key:
        d.add('KEY ' + key)
    d.add('MAXNGRAMSUGS 0')
    stems = near_words(rng, w, (t.replace('-', '') or 'ab') + 'd', key or 'qwertyuiop|asdfghjkl|zxcvbnm', n_near, kinds)
    affixed = rng.random() < 0.3 if affixed is None else affixed
    for s in dict.fromkeys(stems):
        if affixed and rng.random() < 0.4 and len(s) > 1 and ' ' not in s:
            d.word(s[:-1], 'S' if rng.random() < 0.8 else '')
        else:
            d.word(s)
    if affixed:
        ends = list(dict.fromkeys(s[-1] for s in stems)) or ['a']
        d.affixes('SFX', 'S', True, [Affix('SFX', 'S', True, '', e, '.') for e in ends[:3]])
    return d, stems


# --- C12 -----------------------------------------------------------------------------------------
def c12(job, rng, n):
    kinds = ['swap', 'double', 'far', 'key', 'extra', 'missing', 'move', 'wrong', 'pair', 'split']
    for i in range(n):
        alphabet = rng.choice(['ab', 'abc', 'abcd', 'abcde'])
        w = rword(rng, alphabet, 1, 7)
        if i % 3 == 0:
            w = rword(rng, 'abcdefghij', 5, 8)
        only = None if rng.random() < 0.45 else [kinds[i % len(kinds)], rng.choice(kinds)]
        if only is None and rng.random() < 0.7:
            only = [k for k in kinds if k != 'split']
        d, stems = edit_dict(rng, w, alphabet, rng.randint(1, 9), only)
        sugs = [w]
        k = rng.random()
        if k < 0.2:
            d.word(rng.choice(stems or ['ab']).capitalize())
        if k < 0.35:
            sugs.append(w.capitalize())
        elif k < 0.45:
            sugs.append(w.upper())
        elif k < 0.5:
            sugs.append(random_case(rng, w))
        if rng.random() < 0.3:
            sugs.append(mutate(rng, w, alphabet))
        job.simple(d.aff(), d.dic(), suggest=sugs, note='edits')
    # compounds after the others
    for _ in range(n // 5):
        d, alphabet, stems = compound_dict(rng, affixed=False)
        d.add('TRY ' + rng.choice(['ab', 'b', 'abc']), 'MAXNGRAMSUGS 0')
        if rng.random() < 0.3:
            d.add(f'MAXCPDSUGS {rng.choice([0, 1, 2, 5])}')
        if rng.random() < 0.3:
            d.table('REP', ['b a', 'ab ba'])
        if rng.random() < 0.3:
            d.table('MAP', ['ab'])
        sugs = [mutate(rng, rng.choice(stems) + rng.choice(stems), alphabet + 'c')[:7] for _k in range(3)]
        job.simple(d.aff(), d.dic(), suggest=sugs, note='edits giving compounds')
    # long words: positions at the end
    for _ in range(n // 10):
        w = ''.join(rng.sample('abcdefghijkl', rng.randint(6, 9)))
        d, _stems = edit_dict(rng, w, 'abc', 8, ['far', 'move', 'swap', 'double', 'pair'], affixed=False)
        job.simple(d.aff(), d.dic(), suggest=[w], note='edits of long words')


# --- C11 -----------------------------------------------------------------------------------------
def c11(job, rng, n):
    for i in range(n):
        special = rng.random() < 0.6
        if i % 3 == 2:
            d, alphabet, stems = compound_dict(rng)
            d.add('TRY ab')
        else:
            d = Dict()
            alphabet = 'abc'
            d.add('TRY ' + rng.choice(['abc', 'ab', 'ab-']))
            stems = [rword(rng, 'ab', 1, 4) for _k in range(rng.randint(3, 7))]
            fl = 'SP'
            if special:
                d.add('NEEDAFFIX N', 'NOSUGGEST H', 'ONLYINCOMPOUND O', 'FORBIDDENWORD !')
            for s in stems:
                d.word(s, ''.join(subset(rng, fl, 0.5) + (subset(rng, 'NHO!', 0.18) if special else [])))
            d.affixes('SFX', 'S', True, affix_rows(rng, 'SFX', 'S', True, 'ab', 'N' if special else '', 2, stems))
            d.affixes('PFX', 'P', True, affix_rows(rng, 'PFX', 'P', True, 'ab', '', 2, stems))
        if rng.random() < 0.6:
            d.add(f'MAXNGRAMSUGS {rng.choice([0, 0, 0, 2, 10])}')
        if rng.random() < 0.3:
            d.add('NOSPLITSUGS')
        if rng.random() < 0.4:
            d.table('REP', [f'{rword(rng, "ab", 1, 2)} {rword(rng, "ab", 1, 2)}', f'b {rng.choice(stems)}_{rng.choice(stems)}'])
        if rng.random() < 0.3:
            d.table('MAP', [rng.choice(['ab', 'a(bb)', 'bc'])])
        if rng.random() < 0.2:
            d.word(rng.choice(stems) + rng.choice([' ', '-']) + rng.choice(stems), ''.join(subset(rng, 'HO!', 0.2)) if special and i % 3 != 2 else '')
        if rng.random() < 0.1:
            d.words = []
        srcs = d.forms(rng, 10, 2) + ['ab']
        sugs = []
        for _k in range(5):
            w = mutate(rng, rng.choice(srcs), 'abc').lower()
            k = rng.random()
            if k < 0.25:
                w += mutate(rng, rng.choice(srcs), 'ab')
            elif k < 0.35:
                w += '-' + mutate(rng, rng.choice(srcs), 'ab')
            elif k < 0.5:
                w = w.capitalize()
            sugs.append(w[:9])
        job.simple(d.aff(), d.dic(), suggest=sugs, sug_judge='sound', note='soundness')


# --- C13 -----------------------------------------------------------------------------------------
def rep_rows(rng, alphabet, w):
    rows = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.7 and w:
            i = rng.randrange(len(w))
            pat = w[i:i + rng.randint(1, 3)]
        else:
            pat = rword(rng, alphabet + '.', 1, 2)
        k = rng.random()
        if k < 0.15:
            pat = '^' + pat
        elif k < 0.3:
            pat += '$'
        repl = rword(rng, alphabet, 1, 3)
        if rng.random() < 0.25:
            repl = repl[:1] + '_' + repl[1:]
        if rng.random() < 0.06:
            repl = '_' + repl + '_' + rword(rng, alphabet, 1, 1)
        rows.append((pat, repl))
    return rows


def apply_rep(rng, w, pat, repl):
    bare = pat.strip('^$')
    if bare not in w:
        return w
    i = rng.choice([k for k in range(len(w)) if w.startswith(bare, k)])
    return w[:i] + repl.replace('_', ' ') + w[i + len(bare):]


def c13(job, rng, n):
    for i in range(n):
        d = Dict()
        alphabet = 'abc'
        w = rword(rng, 'ab' if rng.random() < 0.6 else 'abc', 1, 6)
        d.add('MAXNGRAMSUGS ' + rng.choice(['0', '0', '4']))
        if rng.random() < 0.4:
            d.add('TRY ' + rng.choice(['ab', 'c', 'xa-']))
        kind = ('rep', 'map', 'ph', 'both')[i % 4]
        stems = []
        if kind in ('rep', 'both'):
            rows = rep_rows(rng, alphabet, w)
            d.table('REP', [f'{p} {r}' for p, r in rows])
            for p, r in rows:
                t = apply_rep(rng, w, p, r)
                stems.append(t)
                if ' ' in t and rng.random() < 0.7:
                    stems += t.split(' ')
                    if rng.random() < 0.5:
                        stems.remove(t)
                if rng.random() < 0.3:      # twice: must not be found
                    stems.append(apply_rep(rng, t.replace(' ', ''), p, r.replace('_', '')))
        if kind in ('map', 'both'):
            rows = []
            for _k in range(rng.randint(1, 2)):
                opts = rng.sample(['a', 'b', 'c', 'bb', 'aa', 'ab', 'x'], rng.randint(2, 3))
                rows.append(''.join(o if len(o) == 1 else f'({o})' for o in opts))
                for _m in range(3):
                    t = w
                    for _j in range(rng.randint(1, 3)):
                        a, b = rng.sample(opts, 2)
                        if a in t:
                            k = rng.choice([k for k in range(len(t)) if t.startswith(a, k)])
                            t = t[:k] + b + t[k + len(a):]
                    stems.append(t)
            d.table('MAP', rows)
        data = {}
        if kind in ('ph', 'both'):
            for _k in range(rng.randint(1, 2)):
                target = rword(rng, alphabet, 2, 5)
                if rng.random() < 0.2:
                    target = rng.choice([target.capitalize(), random_case(rng, target)])
                k = rng.random()
                if k < 0.5:
                    ph = w if rng.random() < 0.6 else rword(rng, alphabet, 1, 4)
                elif k < 0.75:
                    ph = (w[:rng.randint(1, len(w))] if rng.random() < 0.7 else rword(rng, alphabet, 1, 3)) + 'a*'
                else:
                    ph = f'{w[:rng.randint(1, len(w))]}->{rword(rng, alphabet, 1, 3)}'
                stems.append(target)
                data[target] = 'ph:' + ph + (' ph:' + rword(rng, alphabet, 2, 3) if rng.random() < 0.2 else '')
                if '->' in ph:
                    a, b = ph.split('->')
                    stems.append(w.replace(a, b, 1))
                if ph.endswith('*'):
                    stems.append(target[:-1] + w[len(ph) - 2:])
        if rng.random() < 0.4:
            stems += near_words(rng, w, 'abc', '', 2)
        stems = [s.strip() for s in stems if s.strip()]
        for s in dict.fromkeys(stems):
            if s != w or rng.random() < 0.3:
                d.word(s, '', data.get(s, ''))
        if rng.random() < 0.15:
            d.word(w.upper())
        sugs = [w]
        if rng.random() < 0.3:
            sugs.append(w.capitalize())
        if rng.random() < 0.4:
            sugs.append(mutate(rng, w, alphabet))
        job.simple(d.aff(), d.dic(), suggest=sugs, note='tables: ' + kind)


# --- C14 -----------------------------------------------------------------------------------------
def c14(job, rng, n):
    for i in range(n):
        d = Dict()
        kind = ('many', 'compound', 'ngram', 'dups')[i % 4]
        sugs = []
        if kind == 'many':
            w = rword(rng, 'abc', 2, 5)
            letters = 'abcdefghijklmnopqrstuvwxyz'[:rng.randint(8, 26)]
            d.add('TRY ' + letters, 'MAXNGRAMSUGS ' + rng.choice(['0', '1', '4']))
            total = rng.choice([13, 14, 15, 16, 17, 18, 25])
            for s in dict.fromkeys(near_words(rng, w, letters, 'qwertyuiop|asdfghjkl|zxcvbnm', total + 6,
                                              ['missing', 'wrong', 'swap', 'extra', 'move'])):
                if len(d.words) < total:
                    d.word(s)
            if rng.random() < 0.3:
                d.word(rng.choice(d.words)[0].capitalize())
            sugs = [w, rng.choice([w, w.capitalize(), w.upper()])]
        elif kind == 'compound':
            d.add('COMPOUNDMIN ' + rng.choice(['1', '1', '2']))
            flags = compound_flags(rng, d)
            if rng.random() < 0.8:
                d.add(f'MAXCPDSUGS {rng.choice([0, 1, 2, 3, 4, 6])}')
            d.add('TRY abcd', 'MAXNGRAMSUGS 0')
            for _k in range(rng.randint(3, 6)):
                d.word(rword(rng, 'abcd', 1, 2), ''.join(subset(rng, flags, 0.9)))
            ws = [x[0] for x in d.words]
            sugs = [mutate(rng, rng.choice(ws) + rng.choice(ws), 'abcd') for _k in range(3)]
        elif kind == 'ngram':
            limit = rng.choice([0, 1, 2, 3, 4, 6, None])
            if limit is not None:
                d.add(f'MAXNGRAMSUGS {limit}')
            if rng.random() < 0.5:
                d.add('MAXDIFF ' + str(rng.randint(0, 10)))
            base = rword(rng, 'abcde', 5, 7)
            for _k in range(rng.randint(4, 14)):
                t = base
                for _m in range(rng.randint(1, 3)):
                    t = mutate(rng, t, 'abcde')
                d.word(t)
            phone = rng.random() < 0.4
            if phone:
                d.table('PHONE', [f'{c} {c}' for c in 'ABCDE'])
            sugs = [base, mutate(rng, mutate(rng, base, 'abcde'), 'abcde')]
        else:
            w = rword(rng, 'ab', 2, 4)
            d.add('TRY ' + rng.choice(['ab', 'ab-', 'ba']))
            stems = near_words(rng, w, 'ab', '', 6)
            for s in stems:
                d.word(random_case(rng, s) if rng.random() < 0.5 else s)
            if rng.random() < 0.5:
                d.table('OCONV', [rng.choice(['a b', 'ab a', 'aa a', 'b_ a'])])
            if rng.random() < 0.5:
                d.table('REP', ['a b', 'a b', 'b a'])
            sugs = [w, w.capitalize(), w.upper(), w + '-' + mutate(rng, w, 'ab')]
        for s in dict.fromkeys(sugs):
            pass
        job.simple(d.aff(), d.dic(), suggest=sugs, note='limits: ' + kind)


# --- C15 -----------------------------------------------------------------------------------------
def c15(job, rng, n):
    for i in range(n):
        d = Dict()
        alphabet = rng.choice(['ab', 'abc', 'éa', 'жд', 'aß', 'ab', 'aǆ'])
        tr = rng.random() < 0.12
        if tr:
            alphabet = 'iıa'
            d.add('LANG tr')
        elif 'ß' in alphabet and rng.random() < 0.6:
            d.add('CHECKSHARPS')
        d.add('TRY ' + alphabet)
        d.add('MAXNGRAMSUGS ' + rng.choice(['0', '0', '4']))
        flags = ''
        if rng.random() < 0.4:
            d.add('KEEPCASE K')
            flags += 'K'
        if rng.random() < 0.4:
            d.add('FORBIDDENWORD !')
            flags += '!'
        force = rng.random() < 0.25
        if force:
            d.add('FORCEUCASE U', 'COMPOUNDFLAG F', 'COMPOUNDMIN 1')
        if rng.random() < 0.35:
            d.table('OCONV', conversions(rng, alphabet + alphabet.upper()[:1]))
        affixed = rng.random() < (0.5 if force else 0.2)
        stems = [rword(rng, alphabet, 1, 4) for _k in range(rng.randint(2, 6))]
        for s in stems:
            fl = subset(rng, flags, 0.25)
            if force:
                fl += subset(rng, 'FU', 0.6)
            if affixed:
                fl += subset(rng, 'SP', 0.6)
            d.word(random_case(rng, s) if rng.random() < 0.45 else s, ''.join(fl))
            if flags and rng.random() < 0.15:       # a homonym
                d.word(d.words[-1][0], ''.join(subset(rng, flags, 0.3)))
        if affixed:
            permit = force and rng.random() < 0.7
            if permit:
                d.add('COMPOUNDPERMITFLAG Y')
            for kind, f in (('SFX', 'S'), ('PFX', 'P')):
                rows = affix_rows(rng, kind, f, True, alphabet, '', 2, stems)
                for r in rows:
                    r.flags = 'Y' if permit and rng.random() < 0.8 else ''
                d.affixes(kind, f, True, rows)
        if rng.random() < 0.3 and '!' in flags:
            d.word(rng.choice(stems).capitalize(), '!')
        if rng.random() < 0.25:
            d.word(rng.choice(stems) + ' ' + rng.choice(stems))
        if rng.random() < 0.2:
            x = rng.choice(stems)
            d.table('REP', [f'{x} _{x}_', f'{x[:1]} {x[:1]}_', f'{rword(rng, alphabet, 1, 2)} {x}_{x}_{x}'])
        sugs = []
        for _k in range(5):
            w = mutate(rng, rng.choice(stems), alphabet)
            k = rng.random()
            if k < 0.25:
                w = rng.choice(stems) + random_case(rng, rng.choice(stems))
            elif k < 0.5 and force:
                forms = d.forms(rng, 6, 1)
                w = rng.choice(forms) + rng.choice(forms)
                if rng.random() < 0.6:
                    sugs.append(w.lower())
            sugs.append(random_case(rng, w) if rng.random() < 0.8 else w)
            if rng.random() < 0.15:
                sugs[-1] = rng.choice(stems) + rng.choice(stems).capitalize()
            if rng.random() < 0.15:
                sugs[-1] = ''.join(random_case(rng, rng.choice(stems)) for _j in range(3))
        job.simple(d.aff(), d.dic(), suggest=sugs, note='capitalization of suggestions')


# --- C16 -----------------------------------------------------------------------------------------
def c16(job, rng, n):
    for i in range(n):
        d = Dict()
        big = i % 15 == 0       # more stems than are compared closely
        alphabet = rng.choice(['ab', 'abc', 'abcdef', 'abcdefghijklmno'] if not big else ['abcdef', 'abcdefghijklmno'])
        if rng.random() < 0.5:
            d.add(f'MAXDIFF {rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])}')
        if rng.random() < 0.25:
            d.add('ONLYMAXDIFF')
        if rng.random() < 0.5:
            d.add(f'MAXNGRAMSUGS {rng.choice([1, 2, 5, 10, 20])}')
        if rng.random() < 0.15:
            d.table('PHONE', ['A A', 'B B'])
        size = rng.choice([3, 8, 15, 30]) if not big else rng.choice([110, 125, 150])
        phones = rng.choice([0, 0.06, 0.3])
        base = rword(rng, alphabet, 3, 9)
        stems = set()
        for _k in range(size):
            t = base if rng.random() < 0.7 else rword(rng, alphabet, 1, 9)
            for _m in range(rng.randint(2, 5)):
                t = mutate(rng, t, alphabet)
            if rng.random() < 0.15:
                t += rword(rng, alphabet, 1, 5)
            stems.add(t)
        stems = sorted(stems)
        rng.shuffle(stems)
        affixed = rng.random() < 0.6
        for s in stems:
            if rng.random() < 0.12:
                s = random_case(rng, s)
                if s in stems:
                    continue
            data = ''
            if rng.random() < phones:
                data = 'ph:' + (mutate(rng, base, alphabet) or 'a' if rng.random() < 0.5 else rword(rng, alphabet, 2, 9))
            d.word(s, ''.join(subset(rng, 'SPT', 0.5)) if affixed else '', data)
        if affixed:
            ends = [base[-1:], base[-2:], rword(rng, alphabet, 1, 2)]
            rows = [Affix('SFX', 'S', rng.random() < 0.8, rng.choice(['', '', rng.choice(stems)[-1:]]), e, '.') for e in ends]
            cross = rng.random() < 0.8
            for r in rows:
                if r.strip and rng.random() < 0.7:
                    r.cond = r.strip
                elif rng.random() < 0.3:
                    r.cond = f'[^{base[-1]}]'
            d.affixes('SFX', 'S', cross, rows)
            d.affixes('SFX', 'T', True, [Affix('SFX', 'T', True, '', base[-1:], '[' + alphabet + ']')])
            d.affixes('PFX', 'P', rng.random() < 0.8, [Affix('PFX', 'P', True, rng.choice(['', '', base[0]]), base[:k], '.') for k in (1, 2)])
        if rng.random() < 0.3:
            d.add('NOSUGGEST H')
            d.word(mutate(rng, base, alphabet), 'H')
        sugs = [base, mutate(rng, mutate(rng, base, alphabet), alphabet)]
        if rng.random() < 0.3:
            sugs.append(random_case(rng, base))
        if big:
            sugs = sugs[:2]
        job.simple(d.aff(), d.dic(), suggest=sugs, note='n-grams')
    for _ in range(n // 60):
        d, w = crowd(rng)
        job.simple(d.aff(), d.dic(), suggest=[w, mutate(rng, w, 'abc')], note='crowd')


def crowd(rng):
    """About as many similar roots and forms as are looked at, all of them asked for."""
    d = Dict()
    w = ''.join(rng.sample('abcdefghijklmno', rng.randint(7, 10)))
    d.add('MAXDIFF 10', f'MAXNGRAMSUGS {rng.choice([4, 30, 300])}')
    d.affixes('SFX', 'S', True, [Affix('SFX', 'S', True, '', w[-k:], '.') for k in range(1, rng.choice([3, 4]))])
    roots = rng.choice([70, 85, 99, 110, 140])
    few = rng.randint(5, 25)
    stems = set()
    while len(stems) < roots - few:
        start = rng.randint(0, 2)
        stems.add(rword(rng, 'xyzuvpqrst', 0, 1) + w[start:start + rng.randint(4, 7)] + rword(rng, 'xyzuvpqrst', 1, 2))
    while len(stems) < roots:
        t = list(w)
        for i in range(rng.randint(0, 2), len(t), rng.choice([2, 3])):
            t[i] = rng.choice(['', 'x', t[i] + 'y', t[i]])
        stems.add(''.join(t))
    stems = sorted(stems)
    rng.shuffle(stems)
    affixed = rng.choice([0, 0.8]) if roots > 100 else 0.8
    for s in stems:
        d.word(s, 'S' if rng.random() < affixed else '')
    return d, w


# --- C17 -----------------------------------------------------------------------------------------
def phone_rule(rng, letters):
    s = rword(rng, letters, 1, 3)
    if rng.random() < 0.3:
        s += '(' + ''.join(rng.sample(letters, 2)) + ')'
        length = len(s) - 3
    else:
        length = len(s)
    k = rng.random()
    if k < 0.25 and length > 1:
        s += '-' * rng.randint(1, length - 1)
    k = rng.random()
    dashed = '-' in s
    if k < 0.2:
        s += '^'
    elif k < 0.35 and not dashed:
        s += '$'
    elif k < 0.4 and not dashed:
        s += '^$'
    repl = rng.choice(['_', rng.choice(letters), rword(rng, letters, 1, 2)])
    return f'{s} {repl}'


def c17(job, rng, n):
    for _ in range(n):
        d = Dict()
        letters = rng.choice(['ABC', 'ABCDE', 'AB'])
        low = letters.lower()
        rules = [phone_rule(rng, letters) for _k in range(rng.randint(1, 8))]
        if rng.random() < 0.6:
            rules += [f'{c} {c}' for c in letters]
        d.table('PHONE', rules)
        if rng.random() < 0.7:
            d.add('MAXNGRAMSUGS ' + rng.choice(['0', '0', '1', '2']))
        base = rword(rng, low, 2, 7)
        stems = set()
        for _k in range(rng.choice([3, 6, 12, 20])):
            t = base
            for _m in range(rng.randint(2, 4)):
                t = mutate(rng, t, low)
            stems.add(t)
        for s in sorted(stems):
            d.word(random_case(rng, s) if rng.random() < 0.1 else s, '', 'ph:' + mutate(rng, base, low) if rng.random() < 0.05 else '')
        sugs = [base, mutate(rng, base, low), mutate(rng, mutate(rng, base, low), low)]
        job.simple(d.aff(), d.dic(), suggest=sugs, note='phonetic')


# --- C18 -----------------------------------------------------------------------------------------
def c18(job, rng, n):
    for _ in range(n):
        d = Dict()
        d.add('TRY ' + rng.choice(['abc', 'bc', 'ab', 'b-c', '']).strip() if rng.random() < 0.9 else 'TRY b')
        d.lines = [l for l in d.lines if l != 'TRY ']
        if rng.random() < 0.6:
            d.add('MAXNGRAMSUGS ' + rng.choice(['0', '0', '2']))
        if rng.random() < 0.3:
            d.table('REP', [rng.choice(['a b', 'ab c', 'b -', '- a', 'c a_b'])])
        flags = ''
        if rng.random() < 0.3:
            d.add('NOSUGGEST H')
            flags += 'H'
        if rng.random() < 0.2:
            d.add('FORBIDDENWORD !')
            flags += '!'
        if rng.random() < 0.2:
            d.add('NOSPLITSUGS')
        if rng.random() < 0.2:
            d.add(rng.choice(['BREAK 0', 'BREAK 1\nBREAK -', 'BREAK 1\nBREAK ^-']))
        stems = [rword(rng, 'abc', 1, 4) for _k in range(rng.randint(2, 6))]
        if rng.random() < 0.4:
            stems.append(rng.choice(stems) + '-' + rng.choice(stems))
        if rng.random() < 0.2:
            stems = [random_case(rng, s) for s in stems]
        for s in stems:
            d.word(s, ''.join(subset(rng, flags, 0.2)))
        sugs = []
        for _k in range(5):
            parts = [rng.choice(stems) if rng.random() < 0.5 else mutate(rng, rng.choice(stems), 'abcx')
                     for _m in range(rng.randint(2, 3))]
            if rng.random() < 0.1:
                parts.insert(rng.randrange(len(parts) + 1), '')
            w = '-'.join(parts)
            if rng.random() < 0.25:
                w = random_case(rng, w)
            if rng.random() < 0.1:
                w = w + rng.choice(['-', '--'])
            if rng.random() < 0.06:
                w = w.replace('-', rng.choice([' -', '- ']), 1)
            sugs.append(w)
        job.simple(d.aff(), d.dic(), suggest=sugs, note='hyphenated')


# --- C21 -----------------------------------------------------------------------------------------
def c21(job, rng, n):
    for _ in range(n):
        d = Dict()
        t = rng.choice(['', 'ab', 'bc', 'b', 'b-', 'c', 'ea', '-', 'A', 'AB', 'Ab', 'é'])
        if t:
            d.add('TRY ' + t)
        d.add('MAXNGRAMSUGS 0')
        dashes = rng.random() < 0.25
        if dashes and rng.random() < 0.4:
            d.add('BREAK 0')
        if rng.random() < 0.25:
            d.add('NOSPLITSUGS')
        flags = ''
        for name, f in (('NOSUGGEST', 'H'), ('FORBIDDENWORD', '!'), ('NEEDAFFIX', 'N'), ('ONLYINCOMPOUND', 'O')):
            if rng.random() < 0.25:
                d.add(f'{name} {f}')
                flags += f
        compound = rng.random() < 0.3
        if compound:
            d.add('COMPOUNDMIN ' + rng.choice(['1', '2']))
            flags += compound_flags(rng, d) * 2
        stems = [rword(rng, rng.choice(['ab', 'abc', 'abcd']), 1, 4) for _k in range(rng.randint(2, 5))]
        dashes = dashes and not compound
        if dashes:
            stems = [s[:3] for s in stems]
            stems += [rng.choice(stems) + rng.choice(['-', '-', '']) + rng.choice(stems) for _k in range(2)] + ['-' + rng.choice(stems)] * (rng.random() < 0.3)
        for s in stems:
            fl = set(subset(rng, flags, 0.35 if compound else 0.2)) | set(subset(rng, 'S', 0.4))
            d.word(s, ''.join(sorted(fl)))
        if rng.random() < 0.5:
            d.affixes('SFX', 'S', True, affix_rows(rng, 'SFX', 'S', True, 'ab', '', 2, stems))
        if rng.random() < 0.3:
            d.word(rng.choice(stems) + rng.choice([' ', '-']) + rng.choice(stems), ''.join(subset(rng, flags, 0.1)))
        forms = d.forms(rng, 8, 1)
        forms = [f.replace(' ', '') if dashes else f.replace(' ', '').replace('-', '') for f in forms]
        sugs = []
        for _k in range(5):
            w = ''.join(rng.choice(forms) for _m in range(2 if rng.random() < 0.8 or not compound else 3))
            if rng.random() < 0.15:
                w = mutate(rng, w, 'abc')
            k = rng.random()
            if k < 0.12:
                w = w.capitalize()
            elif k < 0.2:
                w = w.upper()
            sugs.append(w)
        job.simple(d.aff(), d.dic(), suggest=sugs, note='two words')
