"""Pairs of dictionaries which differ in some settings: C31 (settings about suggestions), C32 (restrictions).

The library is compared with itself: dictionaries come from the scenarios of other properties, and the answers for one
dictionary of a pair say what those for the other one have to be."""

import re

import core
import fixtures
import lookups
import sessions
import suggestions
from analyses import sampled
from gen import Affix, Dict, rword, strings, subset

SOURCES = [lookups.c01, lookups.c02, lookups.c03, lookups.c04, lookups.c05, lookups.c06, lookups.c07, lookups.c08]


def sources(job, rng, n, makers, most):
    """Dictionaries (pair of contents) with words: about n."""
    for maker in makers:
        other = core.Job()
        maker(other, rng, max(1, n // len(makers)))
        job.encodings |= other.encodings
        for run, note in zip(other.runs, other.notes):
            opens = [ev['file'] for ev in run if ev['op'] == 'open' and ev['file'] not in other.opaque]
            words = [w for ev in run for w in ev.get('ws', [])] + [ev['w'] for ev in run if ev['op'] == 'suggest']
            if len(opens) == 1 and words:
                yield other.files[opens[0] - 1], sampled(rng, words, most), note


def add_file(job, aff, dic):
    job.file('', '', opaque=True)
    job.files[-1] = {'aff': aff, 'dic': dic}
    return len(job.files)


def hurried(evs):
    """Pairs are compared as far as there are answers soon enough (the time is not what C31 and C32 are about)."""
    return [{**ev, 'timeout': 8, 'late': True} for ev in evs]


def eol(content):
    return '\r\n' if '\r\n' in content else '\n'


def has(aff, *names):
    return any(re.search(rf'^\s*{name}\b', aff, re.M) for name in names)


# --- C31: settings about suggestions ---------------------------------------------------------------------------
SUGGESTING = ('TRY', 'KEY', 'MAP', 'PHONE', 'OCONV', 'NOSPLITSUGS', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'MAXDIFF', 'ONLYMAXDIFF', 'WORDCHARS',
              'NOSUGGEST', 'WARN', 'SUBSTANDARD')


def suggesting_lines(rng, aff, letters):
    def text(lo=1, hi=2):
        return rword(rng, letters, lo, hi)
    pool = [['TRY ' + text(1, 6)], ['KEY ' + text(1, 3) + '|' + text(1, 3)], ['MAP 1', f'MAP {text(2, 3)}({text(2, 2)})'],
            ['PHONE 2', f'PHONE {text().upper()} {text(1, 1).upper()}', f'PHONE {text().upper()} _'], ['OCONV 2', f'OCONV {text()} {text()}', f'OCONV {text()}_ {text()}'],
            ['NOSPLITSUGS'], ['ONLYMAXDIFF'], [f'MAXNGRAMSUGS {rng.choice([0, 1, 9])}'], [f'MAXCPDSUGS {rng.choice([0, 1, 9])}'], [f'MAXDIFF {rng.choice([0, 3, 10])}'],
            ['WORDCHARS ' + text(1, 3)]]
    if not has(aff, 'CHECKCOMPOUNDREP'):
        pool.append(['REP 2', f'REP {text()} {text()}', f'REP ^{text()} {text()}_{text()}'])
    if not has(aff, 'FLAG'):
        pool.append([rng.choice(['NOSUGGEST ', 'NOSUGGEST ', 'WARN ', 'SUBSTANDARD ']) + rng.choice('SFABPxy1K')])
    return [line for lines in rng.sample(pool, rng.randint(1, 3)) for line in lines if not has(aff, line.split()[0])]


def without_suggesting(aff):
    names = SUGGESTING if has(aff, 'CHECKCOMPOUNDREP') else SUGGESTING + ('REP',)
    return eol(aff).join(line for line in aff.split(eol(aff)) if not has(line, *names))


def with_fields(rng, dic, letters):
    """Fields of morphology and pronunciation put to some entries."""
    head, *lines = dic.split(eol(dic))
    out = []
    for line in lines:
        if line.strip(' \t\r') and rng.random() < 0.4:
            line = line.rstrip(' \t\r') + '\t' + rng.choice(['po:noun', 'st:' + rword(rng, letters, 1, 3), 'ph:' + rword(rng, letters, 2, 3), 'ph:' + rword(rng, letters, 2, 3) + '*',
                                                       'is:x ph:' + rword(rng, letters, 2, 3) + '->' + rword(rng, letters, 1, 2)])
        out.append(line)
    return eol(dic).join([head] + out)


def c31(job, rng, n):
    makers = SOURCES + [fixtures.scans, lambda j, r, k: rich(j, r, k), suggestions.c13, suggestions.c15]
    for pair, words, note in sources(job, rng, n, makers, 110):
        aff, dic = pair['aff'], pair['dic']
        letters = sorted({chr(c) for w in words for c in w if 97 <= c < 123}) or ['a', 'b']
        other = (without_suggesting(aff) if rng.random() < 0.3 else aff).rstrip('\r\n') + eol(aff)
        other += ''.join(line + eol(aff) for line in suggesting_lines(rng, other, letters))
        changed = dic
        if rng.random() < 0.4 and not has(aff, 'CHECKCOMPOUNDREP', 'AM') and '\t' not in dic and 'ph:' not in dic:
            changed = with_fields(rng, dic, letters)
        a = add_file(job, aff, dic)
        b = add_file(job, other, changed)
        first, second = ((1, a), (2, b)) if rng.random() < 0.5 else ((2, b), (1, a))
        evs = []
        for slot, f in (first, second):
            evs += [{'op': 'open', 'slot': slot, 'file': f, 'content': a, 'j': 'learn'}, {'op': 'scan', 'slot': slot, 'ws': words, 'j': 'learn'}]
        job.run(hurried(evs), 'settings of suggestions: ' + note)


def rich(job, rng, n):
    for _ in range(n):
        d = sessions.rich_dict(rng)
        job.simple(d.aff(), d.dic(), scan=d.forms(rng, 40) + [rword(rng, 'abc', 1, 5) for _k in range(60)], note='rich')


# --- C32: restrictions ------------------------------------------------------------------------------------------------
# with these, more forms may mean less words
INTERFERING = ('CHECKCOMPOUNDREP', 'FORBIDDENWORD', 'CHECKSHARPS', 'ICONV', 'IGNORE', 'LANG')
SWITCHES = ('CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE')
FLAGS = ('KEEPCASE', 'NEEDAFFIX', 'PSEUDOROOT', 'ONLYINCOMPOUND', 'CIRCUMFIX', 'COMPOUNDFORBIDFLAG')
USUAL = {'KEEPCASE': 'K', 'NEEDAFFIX': 'N', 'PSEUDOROOT': 'N', 'ONLYINCOMPOUND': 'O', 'CIRCUMFIX': 'C', 'COMPOUNDFORBIDFLAG': 'D'}     # in dense dictionaries


def number(lines, name, default):
    """The value of a setting, 0 if it isn't plainly written."""
    found = [line for line in lines if has(line, name)]
    if not found:
        return default
    return int(found[-1].split()[1]) if re.match(r'^[A-Z]+\s+\d+\s*$', found[-1]) else 0


def stricter(rng, aff, dic):
    """A more restrictive dictionary, or None."""
    nl = eol(aff)
    lines = aff.rstrip('\r\n').split(nl)
    plain = not has(aff, 'FLAG', 'AF')
    used = sorted(set(''.join(re.findall(r'(?m)^[^/\s]+/([A-Za-z]+)\s*$', dic) + re.findall(r'(?m)^[SP]FX \S+ \S+ [^/\s]+/([A-Za-z]+)', aff))))
    flag = rng.choice(used if used and rng.random() < 0.7 else 'SFABPxyKUXNT')
    k = rng.randrange(13)
    if k == 0:
        new = rng.choice(SWITCHES)
        return None if has(aff, new) else (nl.join(lines + [new]) + nl, dic)
    if k in (1, 2, 8):
        new = rng.choice(FLAGS)
        if not plain or has(aff, new) or (new in ('NEEDAFFIX', 'PSEUDOROOT') and has(aff, 'NEEDAFFIX', 'PSEUDOROOT')):
            return None
        if rng.random() < 0.5:
            flag = USUAL[new]
        return nl.join(lines + [f'{new} {flag}']) + nl, dic
    if k == 3:
        return None if not plain or has(aff, 'FORBIDDENWORD') else (nl.join(lines + [f'FORBIDDENWORD {flag}']) + nl, dic)
    if k == 4:
        old = number(lines, 'COMPOUNDMIN', 3)
        return (nl.join([line for line in lines if not has(line, 'COMPOUNDMIN')] + [f'COMPOUNDMIN {old + 1}']) + nl, dic) if old else None
    if k == 5:
        old = number(lines, 'COMPOUNDWORDMAX', 5)
        return (nl.join([line for line in lines if not has(line, 'COMPOUNDWORDMAX')] + [f'COMPOUNDWORDMAX {old - 1}']) + nl, dic) if old > 2 else None
    if k == 6:
        name = rng.choice(['SIMPLIFIEDTRIPLE', 'COMPOUNDPERMITFLAG', 'COMPOUNDFLAG', 'COMPOUNDEND'])
        less = [line for line in lines if not has(line, name)]
        return None if less == lines else (nl.join(less) + nl, dic)
    if k == 7:      # an entry less
        dnl = eol(dic)
        head, *entries = dic.rstrip('\r\n').split(dnl)
        if len(entries) < 2 or not re.match(r'^\d+\s*$', head) or has(aff, 'COMPOUNDFORBIDFLAG', 'FORCEUCASE'):
            return None
        del entries[rng.randrange(len(entries))]
        return aff, dnl.join([head] + entries) + dnl
    if k in (9, 10):      # an entry or an affix gets a flag which restricts
        meanings = [line.split()[1] for line in lines if re.match(r'^[A-Z]+ \w\s*$', line)]
        others = set(''.join(line.split()[1] for line in lines if re.match(r'^(SFX|PFX|COMPOUNDRULE) \S', line)))
        flags = [line.split()[1] for line in lines if has(line, *(f for f in FLAGS if f != 'CIRCUMFIX')) and re.match(r'^[A-Z]+ \w\s*$', line)]
        flags = [f for f in flags if meanings.count(f) == 1 and f not in others]
        text, where = rng.choice([(dic, r'(?m)^[^/\s\d]+/[A-Za-z]+(?=\s*$)'), (aff, r'(?m)^[SP]FX \S+ \S+ [^/\s]+/[A-Za-z]+')])
        places = [m.end() for m in re.finditer(where, text)]
        if not plain or not flags or not places:
            return None
        at = rng.choice(places)
        changed = text[:at] + rng.choice(flags) + text[at:]
        return (aff, changed) if text is dic else (changed, dic)
    # a row less of a table
    name = rng.choice(['SFX', 'PFX', 'COMPOUNDRULE', 'BREAK', 'SFX', 'PFX'])
    rows = [i for i, line in enumerate(lines) if has(line, name)]
    heads = [i for i in rows if re.match(rf'^{name}\s+(?:\S+\s+[YN]\s+)?\d+\s*$', lines[i])]
    if not heads or (name == 'BREAK' and lines[heads[0]].split()[-1] == '0'):
        return None
    h = rng.choice(heads)
    count = int(lines[h].split()[-1])
    if not count or h + count >= len(lines) or any(i not in rows for i in range(h, h + count + 1)) or (name == 'BREAK' and count == 1):
        return None
    gone = h + rng.randint(1, count)
    head = re.sub(r'\d+\s*$', str(count - 1), lines[h])
    return nl.join(head if i == h else line for i, line in enumerate(lines) if i != gone) + nl, dic


def dense(job, rng, n):
    """Short entries with many flags and affixes, so that about every second word is one."""
    for _ in range(n):
        d = Dict()
        d.add('COMPOUNDMIN 1', *rng.choice([['COMPOUNDFLAG F'], ['COMPOUNDFLAG F'], ['COMPOUNDBEGIN F', 'COMPOUNDMIDDLE M', 'COMPOUNDEND E'],
                                            ['COMPOUNDFLAG F', 'COMPOUNDEND E'], ['COMPOUNDRULE 2', 'COMPOUNDRULE F*E', 'COMPOUNDRULE M?FE']]))
        d.add(*subset(rng, ['COMPOUNDPERMITFLAG X', 'SIMPLIFIEDTRIPLE', 'NEEDAFFIX N', 'CIRCUMFIX C', 'ONLYINCOMPOUND O', 'KEEPCASE K', 'COMPOUNDFORBIDFLAG D',
                            'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'COMPLEXPREFIXES'], 0.2))
        stems = [rword(rng, 'ab', 1, 3) for _k in range(rng.randint(2, 5))]
        for s in stems:
            d.word(rng.choice([s, s, s, s, s.capitalize(), s.upper()]), ''.join(subset(rng, 'FMESTPQ', 0.5) + subset(rng, 'NOKDX', 0.1)))
        for kind, f in (('SFX', 'S'), ('PFX', 'P'), ('SFX', 'T'), ('PFX', 'Q')):
            if rng.random() < 0.6:
                cross = rng.random() < 0.7
                d.affixes(kind, f, cross, [Affix(kind, f, cross, rng.choice(['', '', '', 'a', 'b']), rword(rng, 'ab', 0 if rng.random() < 0.1 else 1, 2), rng.choice(['.', '.', '.', 'a', '[^b]']),
                                                 ''.join(subset(rng, 'C', 0.4) + subset(rng, 'X', 0.5) + subset(rng, 'STPQFMENOD', 0.12)))
                                           for _k in range(rng.randint(1, 2))])
        words = list(strings('ab', 5)) + lookups.concatenations(rng, d, 40, 4) + d.forms(rng, 40, 2)
        words += [rng.choice([str.upper, str.capitalize])(w) for w in rng.sample(words, 10)]
        job.simple(d.aff(), d.dic(), scan=[w for w in dict.fromkeys(words) if len(w) < 9], note='dense')


def c32(job, rng, n):
    makers = SOURCES[:6] + [SOURCES[7], fixtures.scans, lambda j, r, k: rich(j, r, k)] + [dense] * 11
    for pair, words, note in sources(job, rng, n, makers, 140):
        aff, dic = pair['aff'], pair['dic']
        if has(aff, *INTERFERING) or re.search(r'\S \S', dic):
            continue
        strict = next(filter(None, (stricter(rng, aff, dic) for _k in range(20))), None)
        if strict is None:
            continue
        a = add_file(job, *strict)
        b = add_file(job, aff, dic)
        evs = [{'op': 'open', 'slot': 1, 'file': a, 'j': 'learn'}, {'op': 'scan', 'slot': 1, 'ws': words, 'j': 'learn'},
               {'op': 'open', 'slot': 2, 'file': b, 'j': 'learn'}, {'op': 'scan', 'slot': 2, 'ws': words, 'j': 'grown', 'base': a, 'added': []}]
        job.run(hurried(evs), 'restrictions: ' + note)
