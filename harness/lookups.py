"""Scenarios about lookup: C01-C08."""

import itertools

from gen import Affix, Dict, affix_rows, condition, mutate, rword, strings, subset

FLAG_LANG = {'de': 'CHECKSHARPS', 'tr': 'LANG tr_TR'}


def pick_words(rng, sources, alphabet, n):
    """Some of the sources and near misses of them."""
    sources = list(dict.fromkeys(sources))
    out = list(sources) if len(sources) <= n else rng.sample(sources, n)
    for w in list(out)[:n // 2]:
        out.append(mutate(rng, w, alphabet))
    return out


# --- C01 -----------------------------------------------------------------------------------------
def affix_dict(rng):
    d = Dict()
    alphabet = rng.choice(['ab', 'ab', 'abc'])
    complexp = rng.random() < 0.3
    if complexp:
        d.add('COMPLEXPREFIXES')
    special = ''
    if rng.random() < 0.45:
        d.add('NEEDAFFIX N')
        special += 'N'
    if rng.random() < 0.35:
        d.add('CIRCUMFIX X')
        special += 'X'
    if rng.random() < 0.25:
        d.add('ONLYINCOMPOUND O')
        special += 'O'
    if rng.random() < 0.2:
        d.add('FULLSTRIP')
    sfx = 'ABC'[:rng.randint(1, 3)]
    pfx = 'PQ'[:rng.randint(0, 2)]
    stems = [rword(rng, alphabet, 1, 4) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        stems.append(rng.choice(stems))      # homonym
    for s in stems:
        fl = subset(rng, sfx + pfx, 0.55) + subset(rng, special, 0.3)
        d.word(s, ''.join(fl))
    # rare: flags carried by affixes are of either kind
    for f in sfx:
        cross = rng.random() < 0.75
        d.affixes('SFX', f, cross, affix_rows(rng, 'SFX', f, cross, alphabet, sfx + pfx + special, stems=stems))
    for f in pfx:
        cross = rng.random() < 0.75
        d.affixes('PFX', f, cross, affix_rows(rng, 'PFX', f, cross, alphabet, pfx + sfx + special, stems=stems))
    return d, alphabet


def c01(job, rng, n):
    for _ in range(n):
        d, alphabet = affix_dict(rng)
        ws = list(strings(alphabet, 4 if alphabet == 'ab' else 3)) + [''.join(rng.choice(alphabet) for _ in range(5))]
        ws += pick_words(rng, d.forms(rng, 60), alphabet, 50)
        job.simple(d.aff(), d.dic(), scan=ws, note='affixes')
    # two tables with the same added text, conditions of several letters, long strips
    for _ in range(n // 4):
        d = Dict()
        stems = [rword(rng, 'abc', 2, 5) for _ in range(3)]
        for s in stems:
            d.word(s, ''.join(subset(rng, 'ABP', 0.7)))
        for kind, f in (('SFX', 'A'), ('SFX', 'B'), ('PFX', 'P')):
            rows = []
            for _k in range(rng.randint(2, 5)):
                s = rng.choice(stems)
                m = rng.randint(0, len(s))
                strip = (s[len(s) - m:] if kind == 'SFX' else s[:m])
                cond = (s[-rng.randint(1, 3):] if kind == 'SFX' else s[:rng.randint(1, 3)])
                cond = ''.join(c if rng.random() < 0.6 else rng.choice(['.', '[^' + rng.choice('abc') + ']', '[' + c + 'x]'])
                               for c in cond)
                rows.append(Affix(kind, f, True, strip, rword(rng, 'abc', 1, 3), cond, 'B' if kind == 'SFX' and f == 'A' and rng.random() < .5 else ''))
            d.affixes(kind, f, True, rows)
        job.simple(d.aff(), d.dic(), scan=pick_words(rng, d.forms(rng, 150), 'abc', 150), note='affixes, long')


# --- C02 -----------------------------------------------------------------------------------------
def compound_flags(rng, d):
    """Declares the flags by position; returns those usable on words."""
    k = rng.random()
    if k < 0.35:
        d.add('COMPOUNDFLAG F')
        return 'F'
    if k < 0.85:
        d.add('COMPOUNDBEGIN B')
        flags = 'B'
        if rng.random() < 0.75:
            d.add('COMPOUNDMIDDLE M')
            flags += 'M'
        d.add('COMPOUNDEND E' if rng.random() < 0.8 else 'COMPOUNDLAST E')
        return flags + 'E'
    d.add('COMPOUNDFLAG F', 'COMPOUNDBEGIN B', 'COMPOUNDEND E')
    return 'FBE'


def compound_dict(rng, affixed=None):
    d = Dict()
    cmin = rng.choice([1, 1, 2, 2, 3])
    if cmin != 3 or rng.random() < 0.5:
        d.add(f'COMPOUNDMIN {cmin}')
    flags = compound_flags(rng, d)
    if rng.random() < 0.3:
        d.add(f'COMPOUNDWORDMAX {rng.choice([2, 3])}')
    special = ''
    if rng.random() < 0.35:
        d.add('ONLYINCOMPOUND O')
        special += 'O'
    if rng.random() < 0.2:
        d.add('SIMPLIFIEDTRIPLE')
    affixed = rng.random() < 0.6 if affixed is None else affixed
    permit = ''
    if affixed:
        if rng.random() < 0.6:
            d.add('COMPOUNDPERMITFLAG P')
            permit += 'P'
        if rng.random() < 0.4:
            d.add('COMPOUNDFORBIDFLAG Y')
            permit += 'Y'
    alphabet = 'ab'
    stems = [rword(rng, alphabet, max(1, cmin - 1), cmin + 1) for _ in range(rng.randint(2, 4))]
    affs = 'ST'[:rng.randint(1, 2)] if affixed else ''
    for s in stems:
        d.word(s, ''.join(subset(rng, flags, 0.65) + subset(rng, special, 0.3) + subset(rng, affs, 0.7)))
    for f in affs:
        kind = 'SFX' if f == 'S' else 'PFX'
        rows = []
        for r in affix_rows(rng, kind, f, True, alphabet, '', 2, stems):
            r.flags = ''.join(subset(rng, permit, 0.5) + subset(rng, flags, 0.2) + subset(rng, special, 0.15))
            rows.append(r)
        d.affixes(kind, f, True, rows)
    if affixed and rng.random() < 0.35:      # affixes of affixes
        complexprefixes = 'T' in affs and rng.random() < 0.4
        if complexprefixes:
            d.add('COMPLEXPREFIXES')
        kind, f, to = ('PFX', 'V', 'T') if complexprefixes else ('SFX', 'U', 'S')
        rows = affix_rows(rng, kind, f, True, alphabet, '', 2, stems)
        for r in rows:
            r.flags = ''.join(subset(rng, permit, 0.5) + subset(rng, flags, 0.2) + subset(rng, special, 0.15))
        for t in d.tables:
            for r in t[3]:
                if t[1] == to and rng.random() < 0.7:
                    r.flags += f
        d.affixes(kind, f, True, rows)
    return d, alphabet, stems


def concatenations(rng, d, n, parts=4, sep=('',)):
    forms = d.forms(rng, 20, 1)
    return [rng.choice(sep).join(rng.choice(forms) for _ in range(rng.randint(2, parts))) for _ in range(n)]


def c02(job, rng, n):
    for _ in range(n):
        d, alphabet, _stems = compound_dict(rng)
        ws = list(strings(alphabet, 5)) + concatenations(rng, d, 50)
        ws = [w for w in ws if len(w) <= 9]
        job.simple(d.aff(), d.dic(), scan=ws, note='compounds')
    # limits on the number of parts, with longer words
    for _ in range(n // 6):
        d = Dict()
        m = rng.choice([2, 3, 4])
        d.add('COMPOUNDMIN 1', f'COMPOUNDWORDMAX {m}')
        flags = compound_flags(rng, d)
        for s in rng.sample(['a', 'b', 'ab', 'ba', 'aa'], rng.randint(2, 4)):
            d.word(s, ''.join(subset(rng, flags, 0.8)))
        job.simple(d.aff(), d.dic(), scan=strings('ab', 7), note='number of parts')


# --- C03 -----------------------------------------------------------------------------------------
VETOES = ['pair', 'dup', 'rep', 'triple', 'case', 'pattern', 'force', 'forbid']


def c03(job, rng, n):
    for i in range(n):
        d = Dict()
        wanted = {VETOES[i % len(VETOES)]} | set(subset(rng, VETOES, 0.12))
        cmin = rng.choice([1, 1, 1, 2])
        d.add(f'COMPOUNDMIN {cmin}')
        flags = compound_flags(rng, d) if rng.random() < 0.5 else None
        if flags is None:
            d.add('COMPOUNDFLAG F')
            flags = 'F'
        alphabet = 'ab'
        extra = ''
        if 'case' in wanted:
            d.add('CHECKCOMPOUNDCASE')
            alphabet = rng.choice(['abA', 'aB-', 'aA1'])
        if 'dup' in wanted:
            d.add('CHECKCOMPOUNDDUP')
        if 'triple' in wanted:
            d.add('CHECKCOMPOUNDTRIPLE')
            if rng.random() < 0.4:
                d.add('SIMPLIFIEDTRIPLE')
        if 'force' in wanted:
            d.add('FORCEUCASE U')
            extra += 'U'
        if 'forbid' in wanted:
            d.add('COMPOUNDFORBIDFLAG Y')
            extra += 'Y'
        stems = [rword(rng, alphabet, cmin, 3) for _ in range(rng.randint(2, 5))]
        if 'dup' in wanted and rng.random() < 0.6:
            stems = rng.sample(['a', 'b', 'ab', 'bb', 'aba'], 3)
        affixed = rng.random() < 0.4
        if rng.random() < 0.15:
            d.table('COMPOUNDRULE', rng.choice([['R*'], ['RQ'], ['R?Q*', 'QR'], ['R*Q']]))
            flags += 'RQ'
        stems = list(dict.fromkeys(stems))
        if rng.random() < 0.2:
            stems += [s for s in rng.sample(stems, 1) if len(s) > 1]
        for s in stems:
            fl = subset(rng, flags, 0.9) + subset(rng, extra, 0.4) + (subset(rng, 'ST', 0.6) if affixed else [])
            if 'pattern' in wanted:
                fl += subset(rng, 'xy', 0.5)
            d.word(s, ''.join(fl))
        hidden = lambda: ''.join(subset(rng, '~', 0.3))     # noqa: E731
        if 'pair' in wanted or 'rep' in wanted:
            d.add('NOSUGGEST ~')
        if 'pair' in wanted:
            for _k in range(rng.randint(1, 3)):
                d.word(rng.choice(stems) + ' ' + rng.choice(stems), hidden())
        if 'rep' in wanted:
            d.add('CHECKCOMPOUNDREP')
            rows = []
            for _k in range(rng.randint(1, 2)):
                pat, repl = rword(rng, 'ab', 1, 2), rword(rng, 'abc', 1, 2)
                pat = rng.choice(['', '', '', '^']) + pat + rng.choice(['', '', '', '$'])
                rows.append((pat, repl))
                joined = rng.choice(stems) + rng.choice(stems)
                bare = pat.strip('^$')
                if bare in joined:
                    d.word(joined.replace(bare, repl, 1), hidden())
            d.table('REP', [f'{p} {r}' for p, r in rows])
        if 'pattern' in wanted:
            rows = []
            for _k in range(rng.randint(1, 2)):
                left = rng.choice([rng.choice(stems)[-1:], rng.choice(stems)[-2:], '0' if affixed else rng.choice(stems)])
                right = rng.choice([rng.choice(stems)[:1], rng.choice(stems)[:2], '0' if affixed else rng.choice(stems)])
                if rng.random() < 0.4:
                    left += '/' + rng.choice('xy')
                if rng.random() < 0.4:
                    right += '/' + rng.choice('xy')
                rows.append(f'{left} {right}')
            d.table('CHECKCOMPOUNDPATTERN', rows)
        if affixed:
            permit = ''
            if rng.random() < 0.7:
                d.add('COMPOUNDPERMITFLAG P')
                permit = 'P'
            for kind, f in (('SFX', 'S'), ('PFX', 'T')):
                rows = affix_rows(rng, kind, f, True, 'ab', '', 2, stems)
                for r in rows:
                    r.flags = ''.join(subset(rng, permit, 0.8) + subset(rng, extra, 0.2) + subset(rng, flags, 0.1))
                    if 'pattern' in wanted:
                        r.flags += ''.join(subset(rng, 'xy', 0.4))
                if kind == 'SFX' or rng.random() < 0.5:
                    d.affixes(kind, f, True, rows)
        ws = concatenations(rng, d, 100, 4)
        ws += list(strings(alphabet[:2], 4))
        ws = [w for w in ws if len(w) <= (8 if affixed else 10)]
        if 'force' in wanted or 'case' in wanted:
            ws += [w.capitalize() for w in ws[:60]] + [w.upper() for w in ws[:30]] + [w[:1] + w[1:].capitalize() for w in ws[:20]]
        if 'pair' in wanted:
            ws += [w[0] for w in d.words]
        job.simple(d.aff(), d.dic(), scan=ws, note='vetoes: ' + ' '.join(sorted(wanted)))


# --- C04 -----------------------------------------------------------------------------------------
def rule(rng, flags):
    items = []
    for _ in range(rng.randint(1, 4)):
        items.append((rng.choice(flags), rng.choice(['', '', '*', '?'])))
    return items


def c04(job, rng, n):
    for _ in range(n):
        fmt = rng.choice(['short', 'short', 'short', 'long', 'num'])
        flags = {'short': ['x', 'y', 'z', '1', '.'], 'long': rng.choice([['xx', 'xy', 'yx', 'ab', '12'], ['x.', 'xy', '+x', 'a|', '[]']]),
                 'num': rng.choice([['10', '11', '12', '13', '21'], ['1', '11', '12', '2', '112']])}[fmt][:rng.randint(2, 5)]
        d = Dict()
        if fmt != 'short':
            d.add(f'FLAG {fmt}')
        cmin = rng.choice([1, 1, 1, 2])
        d.add(f'COMPOUNDMIN {cmin}')
        if rng.random() < 0.25:
            d.add(f'COMPOUNDWORDMAX {rng.choice([2, 3])}')
        rows = []
        for _k in range(rng.randint(4, 8) if rng.random() < 0.15 else rng.randint(1, 3)):
            items = rule(rng, flags)
            if fmt == 'short':
                rows.append(''.join(f + q for f, q in items))
            else:
                rows.append(''.join(f'({f}){q}' for f, q in items))
        only = ''
        d.table('COMPOUNDRULE', rows)
        if rng.random() < 0.3:
            only = {'short': 'O', 'long': 'OO', 'num': '99'}[fmt]
            d.add('ONLYINCOMPOUND ' + only)
        banned = {'short': '!', 'long': '!!', 'num': '66'}[fmt] if rng.random() < 0.15 else None
        if banned:
            d.add('FORBIDDENWORD ' + banned)
        by_flag = {'short': 'F', 'long': 'FF', 'num': '77'}[fmt] if rng.random() < 0.2 else None
        if by_flag:
            d.add('COMPOUNDFLAG ' + by_flag)
        stems = rng.sample(['a', 'b', 'c', 'ab', 'ba', 'aa', 'bc', 'abc'], rng.randint(2, 4))
        if rng.random() < 0.25:
            stems.append(rng.choice(stems))
        sep = ',' if fmt == 'num' else ''
        for s in stems:
            fl = subset(rng, flags, 0.5)
            if only and rng.random() < 0.4:
                fl.append(only)
            if by_flag and rng.random() < 0.4:
                fl.append(by_flag)
            if banned and rng.random() < 0.3:
                fl.append(banned)
            d.word(s, sep.join(fl))
        ws = list(strings('ab', 5)) + concatenations(rng, d, 60, 5)
        if rng.random() < 0.3:
            ws += concatenations(rng, d, 12, 8)
        job.simple(d.aff(), d.dic(), scan=[w for w in ws if len(w) <= 9], note='compound rules')


# --- C05 -----------------------------------------------------------------------------------------
def all_cases(word, limit=64):
    out = []
    for combo in itertools.product((False, True), repeat=len(word)):
        out.append(''.join(c.upper() if u else c for c, u in zip(word, combo)))
        if len(out) >= limit:
            break
    return out


CASE_ALPHABETS = ['ab', 'ab', 'abc', 'éà', 'жд', 'λδ', 'aǆ', 'aß', "a'b", 'a1', 'a-', 'aﬁ', 'aŉ', 'ai', 'aﬀ', 'яa', 'λσ', 'σςα', 'aʼ', 'éab']


def random_case(rng, w):
    k = rng.random()
    if k < 0.3:
        return w
    if k < 0.5:
        return w.capitalize()
    if k < 0.65:
        return w.upper()
    return ''.join(c.upper() if rng.random() < 0.5 else c for c in w)


def c05(job, rng, n):
    for i in range(n):
        d = Dict()
        alphabet = CASE_ALPHABETS[i % len(CASE_ALPHABETS)]
        keep = rng.random() < 0.5
        if keep:
            d.add('KEEPCASE K')
        if rng.random() < 0.35:
            d.add(rng.choice(['LANG en', 'LANG de_DE', 'WORDCHARS ab']))
        affixed = rng.random() < 0.5
        if rng.random() < 0.2:
            d.add('BREAK 0')
        compound = rng.random() < 0.2
        if compound:
            d.add('COMPOUNDMIN 1', 'COMPOUNDFLAG F')
        base = [rword(rng, alphabet, 1, 4) for _ in range(rng.randint(1, 3))]
        for w in base:
            for v in {random_case(rng, w) for _ in range(rng.randint(1, 2))}:
                d.word(v, ('F' if compound and rng.random() < 0.8 else '') + ('K' if keep and rng.random() < 0.5 else '') + ('S' if affixed and rng.random() < 0.7 else '')
                       + ('P' if affixed and rng.random() < 0.5 else ''))
        if affixed:
            rows = [Affix('SFX', 'S', True, '', random_case(rng, rword(rng, alphabet, 1, 2)), '.')]
            if keep and rng.random() < 0.3:
                rows[0].flags = 'K'
            d.affixes('SFX', 'S', True, rows)
            d.affixes('PFX', 'P', True, [Affix('PFX', 'P', True, '', random_case(rng, rword(rng, alphabet, 1, 1)), '.')])
        forms = list(dict.fromkeys(d.forms(rng, 12, 1)))[:10]
        ws = []
        if compound:
            forms = forms[:6] + concatenations(rng, d, 4, 3)
        for f in forms:
            low = f.lower()
            if len(low) <= 5:
                ws += all_cases(low, 32)
            ws += [f, low, f.upper(), f.capitalize(), f.swapcase(), f.title(), f[:1].lower() + f[1:], f[:1].upper() + f[1:]]
        ws += list(strings([*alphabet, *[c.upper() for c in alphabet]], 2))
        job.simple(d.aff(), d.dic(), scan=ws[:400], note='case')
    # single letters and prefixes of listed words are not words
    for w in ['abc', 'Abc', 'ABC', 'aBc', 'AbC']:
        d = Dict()
        d.word(w)
        job.simple(d.aff(), d.dic(), scan=[v for s in strings('abc', 3) for v in all_cases(s)], note='case, one word')


# --- C06 -----------------------------------------------------------------------------------------
def c06(job, rng, n):
    for i in range(n):
        d = Dict()
        german = i % 2 == 0
        if german:
            d.add('CHECKSHARPS')
            alphabet = rng.choice(['sßa', 'sß', 'ßa'])
        else:
            d.add('LANG ' + rng.choice(['tr', 'tr_TR', 'az', 'crh', 'tr', 'az_AZ', 'crh_UA']))
            alphabet = rng.choice(['iıa', 'iı', 'ia'])
        if rng.random() < 0.15:
            d.lines = []        # neither: plain dictionary with these letters
        keep = rng.random() < 0.5
        if keep:
            d.add('KEEPCASE K')
        force = rng.random() < 0.25
        if force:
            d.add('FORCEUCASE U', 'COMPOUNDMIN 1', 'COMPOUNDFLAG F')
        up = (lambda w: w.upper()) if german else (lambda w: w.replace('i', 'İ').replace('ı', 'I').upper())
        for _k in range(rng.randint(1, 4)):
            w = rword(rng, alphabet, 1, 4)
            k = rng.random()
            if k < 0.25:
                w = up(w[:1]) + w[1:]
            elif k < 0.35:
                w = up(w)
            d.word(w, ('K' if keep and rng.random() < 0.5 else '') + ('S' if rng.random() < 0.4 else '')
                   + (''.join(subset(rng, 'FU', 0.6)) if force else ''))
        if rng.random() < 0.4:
            d.affixes('SFX', 'S', True, [Affix('SFX', 'S', True, '', rword(rng, alphabet, 1, 2), '.')])
        ws = []
        upper = ['S', 'ß', 'A', 's', 'SS'] if german else ['i', 'I', 'ı', 'İ', 'A', 'a']
        ws += list(strings(upper, 3))
        for f in d.forms(rng, 10, 1):
            ws += [f, up(f), up(f[:1]) + f[1:], f.upper(), f.lower(), f.replace('ß', 'ss'), up(f.replace('ß', 'ẞ')),
                   f.upper().replace('SS', 'ß', 1), f.upper().replace('SS', 'ß'), f.upper().replace('SS', 'ẞ'),
                   f.capitalize(), f.replace('ss', 'ß'), f.replace('i', 'ı'), f.upper().replace('I', 'İ')]
            ws += [mutate(rng, up(f), [c for c in upper])]
        ws.append('')
        if force:
            ws += concatenations(rng, d, 6, 2)
            ws = [w for w in ws if len(w) < 8]
        asked = rng.sample(ws, 3) if force or rng.random() < 0.5 else []
        if force:
            asked += [w.lower() for w in concatenations(rng, d, 3, 2)] + list(alphabet)
        job.simple(d.aff(), d.dic(), scan=ws[:350], suggest=asked,
                   note='German' if german else 'Turkic')


# --- C07 -----------------------------------------------------------------------------------------
def c07(job, rng, n):
    for _ in range(n):
        d = Dict()
        d.add('FORBIDDENWORD !')
        flags = '!'
        hidden = ''
        if rng.random() < 0.6:
            d.add('NOSUGGEST -')
            hidden += '-'
        if rng.random() < 0.5:
            d.add('ONLYINCOMPOUND O')
            hidden += 'O'
        compound = rng.random() < 0.55
        cflags = ''
        if compound:
            d.add('COMPOUNDMIN 1')
            if rng.random() < 0.7:
                cflags = compound_flags(rng, d)
            else:
                d.table('COMPOUNDRULE', ['xx', 'xy*'])
                cflags = 'xy'
            if rng.random() < 0.3:
                d.add(*subset(rng, ['SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDDUP', 'FORCEUCASE U'], 0.5))
        d.add('TRY ' + rng.choice(['ab', 'abc', 'b']))
        d.add('MAXNGRAMSUGS ' + rng.choice(['0', '0', '4']))
        if rng.random() < 0.2:
            d.add('KEEPCASE K')
        alphabet = 'ab'
        stems = [rword(rng, alphabet, 1, 3) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.4:
            stems.append(rng.choice(stems))
        if rng.random() < 0.3:
            stems = [random_case(rng, s) for s in stems]
        if compound and rng.random() < 0.5:
            stems.append(rng.choice(stems) + rng.choice(stems))
        if rng.random() < 0.2:
            stems.append(rng.choice(stems) + rng.choice('-- ') + rng.choice(stems))
        if rng.random() < 0.4:
            stems += [mutate(rng, stems[0], 'ab').capitalize()]
        for s in stems:
            fl = subset(rng, cflags, 0.75) + subset(rng, 'SP', 0.5)
            if rng.random() < 0.35:
                fl.append(flags)
            fl += subset(rng, hidden, 0.3)
            d.word(s, ''.join(fl))
        if rng.random() < 0.7:
            cont = cflags if rng.random() < 0.4 else ''
            rows = affix_rows(rng, 'SFX', 'S', True, alphabet, cont, 2, stems)
            if rng.random() < 0.15:
                rows[0].flags = '!'
            d.affixes('SFX', 'S', True, rows)
            d.affixes('PFX', 'P', True, affix_rows(rng, 'PFX', 'P', True, alphabet, '', 1, stems))
        ws = list(strings(alphabet, 4)) + d.forms(rng, 25, 2)
        if compound:
            ws += concatenations(rng, d, 30, 3)
        ws += [w.capitalize() for w in ws[:40]] + [w.upper() for w in ws[:40]]
        ws = [w for w in ws if len(w) <= 9]
        sugs = [mutate(rng, rng.choice(stems), alphabet) for _k in range(4)]
        sugs += [mutate(rng, rng.choice(stems), alphabet).capitalize()]
        if compound:
            sugs += [mutate(rng, w, alphabet) for w in concatenations(rng, d, 2, 2)]
            first, second = rng.choice(stems), rng.choice(stems)
            if 'SIMPLIFIEDTRIPLE' in d.lines and first[-1:] == second[:1]:
                ws.insert(0, first + second[1:])
                sugs.append(mutate(rng, first + second[1:], alphabet))
        if any(c.isupper() for c in ''.join(sugs[:-1])):
            sugs = [s.lower() for s in sugs]
        job.simple(d.aff(), d.dic(), scan=ws[:300], suggest=sugs, sug_judge='hidden', note='forbidden and hidden words')


# --- C08 -----------------------------------------------------------------------------------------
SPECIALS = '.*+?()[]{}|\\^$'


def conversions(rng, alphabet, specials=True):
    rows = []
    seen = set()
    for _ in range(rng.randint(1, 4)):
        lit = rword(rng, alphabet, 1, 3)
        if specials and rng.random() < 0.2:
            lit = rng.choice(SPECIALS) + lit[1:]
        if lit in seen:
            continue
        seen.add(lit)
        pat = lit
        k = rng.random()
        if k < 0.15:
            pat = '_' + pat
        elif k < 0.3:
            pat = pat + '_'
        elif k < 0.36:
            pat = '_' + pat + '_'
        repl = rword(rng, alphabet, 1, 2)
        if specials and rng.random() < 0.12:
            repl = rng.choice(['\\1', '\\g<0>', '&', '$1'])
        elif rng.random() < 0.1:
            repl = rng.choice(['_', repl + '_', '_' + repl, repl + '_' + repl])
        rows.append(f'{pat} {repl}')
    return rows


def c08(job, rng, n):
    for i in range(n):
        d = Dict()
        kind = ['iconv', 'ignore', 'break', 'number', 'mixed', 'break'][i % 6]
        alphabet = 'ab'
        ws = []
        if kind in ('iconv', 'mixed'):
            alphabet = 'abc'
            rows = conversions(rng, alphabet)
            d.table('ICONV', rows)
            ws += [''.join(rng.choice(rows).split()[0].strip('_') if rng.random() < 0.5 else rng.choice(alphabet)
                           for _k in range(rng.randint(1, 4))) for _m in range(40)]
        if kind in ('ignore', 'mixed'):
            d.add('IGNORE ' + rng.choice(['x', 'xy', '.x', '\\x', 'a', '-x', 'ь', 'x^']))
        breaks = None
        if kind in ('break', 'mixed'):
            if rng.random() < 0.75:
                opts = ['-', '^-', '-$', '--', '=', 'a', '^a', 'a$', '-a', '.', '|', '+-', '^--', 'ab', '_', "'", '\\']
                breaks = rng.sample(opts, rng.randint(0, 4))
                if not breaks:
                    d.add('BREAK 0')
                else:
                    d.table('BREAK', breaks)
        stems = [rword(rng, alphabet, 1, 3) for _k in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            stems.append(rng.choice(stems) + rng.choice('-=x1') + rng.choice(stems))
        if rng.random() < 0.25:
            stems.append(rng.choice(['-', '1a', 'a-', '-b', 'x', 'axb', '1.5a', 'a.b']))
        if kind in ('iconv', 'mixed') and rng.random() < 0.4:
            stems.append(rword(rng, alphabet, 1, 2) + ' ' + rword(rng, alphabet, 1, 1))
        affixed = rng.random() < 0.3
        for s in stems:
            d.word(s, 'S' if affixed else '')
        if affixed:
            d.affixes('SFX', 'S', True, affix_rows(rng, 'SFX', 'S', True, alphabet + ('x' if kind == 'ignore' else ''), '', 2, stems))
        forms = d.forms(rng, 10, 1)
        seps = ['-', '--', '=', '-', "'", '.', '|', '+-', 'a', '_', '\\', ''] if kind in ('break', 'mixed') else ['-', '', 'x', '.']
        if kind in ('break', 'mixed'):
            for _k in range(90):
                parts = [rng.choice(forms + ['', 'zz']) if rng.random() < 0.9 else '' for _m in range(rng.randint(1, 5))]
                sep = rng.choice(breaks).strip('^$') if breaks and rng.random() < 0.7 else rng.choice(seps)
                ws.append(sep.join(parts))
            ws += list(strings(['a', '-'], 4))
        ws += list(strings(alphabet, 3))
        for f in forms:
            ws += [f, mutate(rng, f, 'x' + alphabet), f[:1] + 'x' + f[1:], 'x' + f, f + 'xy', mutate(rng, f, SPECIALS + '-')]
        if kind in ('number', 'mixed', 'ignore'):
            ws += list(strings('1.', 4)) + ['12', '1.2', '1,2', '-1', '1-2', '1.2.3', '.5', '5.', '1e5', '١٢', '١.٢', '²', '½', '1a',
                   'a1', '1-a', '1x2', '1x', 'x1', 'x', 'xx', '1.x2', '0', '00.00', '1..2', '12a', '1.5a', '१२', '1٢', '٠.1', '1 ', ' 1', '1/2', '+1', '1%']
        ws += ['', '-', '--', '---', 'a-', '-a', '-a-']
        job.simple(d.aff(), d.dic(), scan=ws[:350], note='lookup preparation: ' + kind)
    # the limit of the number of cuts
    for parts in (9, 10, 11, 12, 13, 14):
        d = Dict()
        d.word('a')
        d.word('bb')
        job.simple(d.aff(), d.dic(), scan=['-'.join(['a'] * parts), '-'.join(['bb'] * parts), '-' * parts + 'a', '-'.join(['a'] * parts) + '-',
                                           '-'.join(['a'] * (parts - 1) + ['c'])], note='many parts')
