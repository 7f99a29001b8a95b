"""Menus of dictionary parts for the model spec/MC.tla: every combination is checked and replayed.

A menu is {law, groups, words, sugs}; groups are lists of alternatives (aff text, dic text) or
(aff text, dic text, canonical aff text, canonical dic text).
"""

from gen import strings

START = [('SET UTF-8\n', '9\n')]


def lines(*texts):
    return ''.join(t + '\n' for t in texts)


def affs(*alternatives):
    return [(lines(*a.split('|')) if a else '', '') for a in alternatives]


def entries(stem, *flags):
    """One entry with each of the flags; None: no entry."""
    return [('', '' if f is None else stem + ('/' + f if f else '') + '\n') for f in flags]


def sfx(*rows, cross='Y'):
    """Tables of suffixes: 'A 0 b .' ..."""
    return f'SFX {rows[0].split()[0]} {cross} {len(rows)}|' + '|'.join('SFX ' + r for r in rows)


def pfx(*rows, cross='Y'):
    return sfx(*rows, cross=cross).replace('SFX', 'PFX')


def menu(law, *groups, words=(), sugs=(), name=''):
    return {'law': law, 'name': name, 'groups': [START, *groups], 'words': list(dict.fromkeys(words)),
            'sugs': list(dict.fromkeys(sugs))}


def c01(deep):
    ws = list(strings('ab', 6 if deep else 5))
    yield menu('C01',
               entries('ab', '', 'A', 'AP', 'NA', 'ABP', 'P', 'NP'),
               affs('NEEDAFFIX N', 'CIRCUMFIX X', 'ONLYINCOMPOUND N') if not deep else
               affs('', 'NEEDAFFIX N', 'CIRCUMFIX X', 'ONLYINCOMPOUND N', 'NEEDAFFIX N|CIRCUMFIX X', 'NEEDAFFIX X|CIRCUMFIX N'),
               affs('', sfx('A 0 b .'), sfx('A b a ab'), sfx('A 0 b/B .'), sfx('A 0 a/N .'), sfx('A 0 b/X .'),
                    sfx('A 0 a/P [^a]', cross='N')),
               affs('', sfx('B 0 a .'), sfx('B b 0/A [ab]b')),
               affs('', pfx('P 0 a .'), pfx('P 0 b/A a'), pfx('P a b/X .'), pfx('P 0 a/N .', cross='N')),
               words=ws, name='suffixes and prefixes')
    yield menu('C01',
               entries('ab', 'P', 'PQ', 'QA', 'NP'),
               entries('b', None, 'P', 'A'),
               affs('COMPLEXPREFIXES', 'COMPLEXPREFIXES|NEEDAFFIX N', 'NEEDAFFIX N'),
               affs(pfx('P 0 a/Q .'), pfx('P 0 b .'), pfx('P a b/QN .'), pfx('P 0 a/QA .', cross='N')),
               affs(pfx('Q 0 b .'), pfx('Q 0 a/N a'), pfx('Q 0 a b', cross='N')),
               affs('', sfx('A 0 a .'), sfx('A 0 b/N .')),
               words=list(strings('ab', 5)), name='two prefixes')


def c02(deep):
    ws = list(strings('ab', 6 if deep else 5))
    yield menu('C02',
               affs('COMPOUNDMIN 1', 'COMPOUNDMIN 2'),
               affs('COMPOUNDFLAG F', 'COMPOUNDBEGIN B|COMPOUNDMIDDLE M|COMPOUNDEND E', 'COMPOUNDBEGIN B|COMPOUNDEND E'),
               entries('a', '', 'F', 'B', 'E', 'BM', 'ME', 'BEFO'),
               entries('ab', '', 'F', 'B', 'ME', 'BMEF'),
               entries('bb', None, 'FE', 'BO', 'M'),
               affs('', 'COMPOUNDWORDMAX 2', 'ONLYINCOMPOUND O', 'SIMPLIFIEDTRIPLE'),
               words=ws, name='positions')
    yield menu('C02',
               affs('COMPOUNDMIN 1'),
               affs('COMPOUNDFLAG F', 'COMPOUNDBEGIN B|COMPOUNDMIDDLE M|COMPOUNDEND E'),
               entries('a', 'FBS', 'FMSQ', 'FEQ', 'S'),
               entries('b', 'FBME', 'QS'),
               affs('COMPOUNDPERMITFLAG P', 'COMPOUNDFORBIDFLAG P', ''),
               affs(sfx('S 0 ba .'), sfx('S 0 ab/P .'), sfx('S 0 a/FE .')),
               affs(pfx('Q 0 b .'), pfx('Q 0 ab/P .'), pfx('Q 0 ba/BM .')),
               words=list(strings('ab', 6)), name='affixes in parts')


def c03(deep):
    ws = list(strings('ab', 7 if deep else 6, 2)) + ['Aab', 'AB', 'Abab', 'ABAB', 'Baab']
    yield menu('C03',
               affs('COMPOUNDMIN 1|COMPOUNDFLAG F'),
               entries('a', 'F', 'FU', 'FX'), entries('ab', 'F', 'FX'), entries('bb', None, 'F', 'FU'),
               entries('a b', None, ''),
               affs('', 'CHECKCOMPOUNDDUP'),
               affs('', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDTRIPLE|SIMPLIFIEDTRIPLE'),
               affs('', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN b a', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN b/X b',
                    'CHECKCOMPOUNDPATTERN 2|CHECKCOMPOUNDPATTERN a/F a/U|CHECKCOMPOUNDPATTERN bb a'),
               affs('', 'FORCEUCASE U|COMPOUNDFORBIDFLAG X'),
               words=ws, name='vetoes')
    yield menu('C03',
               affs('COMPOUNDMIN 1|COMPOUNDFLAG F'),
               entries('a', 'F', 'FS'), entries('b', 'F'), entries('Ba', None, 'F'), entries('aab', None, ''),
               affs('', sfx('S 0 b/F .'), sfx('S a bb .')),
               affs('', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN 0/S b', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN a 0/F'),
               affs('', 'CHECKCOMPOUNDCASE'),
               affs('', 'CHECKCOMPOUNDREP|REP 2|REP b ab|REP bb a', 'CHECKCOMPOUNDREP|REP 1|REP ba ab'),
               affs('', 'COMPOUNDPERMITFLAG F'),
               words=list(strings('ab', 6, 2)) + ['aBa', 'Baa', 'BaBa', 'bBa', 'ABA'], name='replacements and case')


def c04(deep):
    yield menu('C04',
               affs(*['COMPOUNDRULE 1|COMPOUNDRULE ' + r for r in ('AB', 'A*B', 'A?B', 'AB*A', 'A*B*', 'A?B?A')],
                    'COMPOUNDRULE 2|COMPOUNDRULE AB|COMPOUNDRULE B*C'),
               entries('a', 'A', 'AB', 'C', 'O'), entries('b', 'B', 'C', 'AB'), entries('ab', 'A', 'B', None), entries('a', None, 'B'),
               affs('COMPOUNDMIN 1', 'COMPOUNDMIN 2', 'COMPOUNDMIN 1|COMPOUNDWORDMAX 2', 'COMPOUNDMIN 1|ONLYINCOMPOUND O'),
               words=list(strings('ab', 6 if deep else 5)), name='rules')


def c05(deep):
    ws = list(strings('abAB', 3)) + list(strings('aB', 4, 4))
    yield menu('C05',
               affs('KEEPCASE K'),
               entries('ab', None, '', 'K'), entries('Ab', None, '', 'K'), entries('AB', None, '', 'K'), entries('aB', None, '', 'K'),
               entries('aBa', None, '', 'K'), entries('BaB', None, '', 'K') if deep else entries('BaB', None, 'K'),
               words=ws, name='case')


def c06(deep):
    ws = [w for w in strings('sSßaA', 3)] + list(strings('Sß', 4, 4)) + ['ß', 'ẞ', 'aẞ', 'AẞA', 'ASSA', 'aßssa', 'ASSSSA', 'AßSSA', 'ASSßA']
    yield menu('C06',
               affs('CHECKSHARPS|KEEPCASE K'),
               entries('aß', None, '', 'K'), entries('saß', None, ''), entries('ass', None, ''), entries('sßa', None, '', 'K'),
               entries('aßß', None, '') if deep else entries('aßß', None),
               words=ws, name='sharp s')
    yield menu('C06',
               affs('LANG tr_TR', 'LANG az_AZ', 'LANG en_US', 'LANG crh_UA'),
               entries('ai', None, ''), entries('aı', None, ''), entries('ia', None, ''), entries('ıa', None, ''), entries('iı', None, ''),
               words=list(strings('aAiIıİ', 2)) + ['aia', 'AİA', 'AIA'], name='dotless i')


def c07(deep):
    ws = list(strings('abAB', 2)) + list(strings('ab', 5, 3)) + ['a-b', 'ab-a']
    yield menu('C07',
               affs('TRY ab|FORBIDDENWORD !|NOSUGGEST ~|COMPOUNDMIN 1|COMPOUNDFLAG F', 'TRY ab|FORBIDDENWORD !|NOSUGGEST ~|MAXNGRAMSUGS 0'),
               entries('a', 'F', 'F!', 'F~'), entries('ab', None, 'F', '!', '~'), entries('ab', None, 'S', '!'), entries('aba', None, '', '!', '!S'),
               affs('', sfx('S 0 a .'), sfx('S b a/F b')),
               words=ws, sugs=['ba', 'b', 'abb', 'AB', 'Ab', 'aba'] + (['abab', 'aab', 'a-ba'] if deep else []), name='forbidden')
    yield menu('C07',
               affs('COMPOUNDMIN 1|COMPOUNDFLAG F|NOSUGGEST ~|FORBIDDENWORD !|MAXNGRAMSUGS 0'),
               affs('', 'SIMPLIFIEDTRIPLE', 'CHECKCOMPOUNDTRIPLE|SIMPLIFIEDTRIPLE'),
               entries('abb', 'F', 'F~', 'F!'), entries('ba', 'F', 'F~', 'F!'), entries('abb-ba', None, '', '~', '!'), entries('abba', None, '!'),
               words=list(strings('ab', 4)) + ['abbba', 'abbbba', 'abb-ba', 'baba', 'ba-abb'],
               sugs=['abbaa', 'aba', 'abba', 'abbaba', 'abb-bba', 'babb', 'abbb-ba'], name='hidden parts')
    yield menu('C07',
               affs('TRY ab|COMPOUNDMIN 1|COMPOUNDRULE 1|COMPOUNDRULE FG*|NOSUGGEST ~|FORBIDDENWORD !|MAXNGRAMSUGS 0'),
               entries('a', 'F', 'FG~', 'FG!'), entries('b', 'G', 'G~', 'FG!', '!'), entries('ab', None, 'G', 'G~', '!'), entries('a', None, '!', 'G'),
               entries('ba', None, 'F', 'F~'),
               words=list(strings('ab', 4)), sugs=['abb', 'bba', 'aab', 'baa', 'bab', 'ab', 'abab'], name='parts by rules')


def c08(deep):
    ws = list(strings('a-b1', 4)) + ['a-b-a', '-a-b-', 'a--b', 'xa', 'ax', 'x', 'a-x', '1x1', 'bx-a', 'a-b-a-b', '1.5', '1,5', '1-5', '-1', '1..5']
    yield menu('C08',
               entries('a', '', None), entries('b', '', None), entries('a-b', None, ''), entries('ab', None, ''),
               affs('', 'BREAK 0', 'BREAK 1|BREAK -', 'BREAK 2|BREAK ^-|BREAK b', 'BREAK 1|BREAK -$', 'BREAK 2|BREAK b$|BREAK 1'),
               affs('', 'ICONV 1|ICONV x b', 'ICONV 2|ICONV x a-|ICONV ab b', 'ICONV 2|ICONV _x 1|ICONV a_ b', 'IGNORE x-' if not deep else 'IGNORE x'),
               words=ws if deep else ws[::2] + ws[340:], name='breaks')


EDITS = 'TRY ab|MAXNGRAMSUGS 0'


def c11(deep):
    ss = ['ab', 'ba', 'abb', 'Ab', 'AB', 'aabb', 'abab', 'bab-a', 'aB']
    yield menu('C11',
               affs('TRY ba', 'TRY ab-', 'TRY a|NOSPLITSUGS'),
               entries('a', '', 'F', 'S'), entries('bab', None, '', 'FP'), entries('Abb', None, 'S'), entries('aba', None, 'F', 'P'),
               affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F'),
               affs('', sfx('S 0 b .')), affs('', pfx('P 0 b .')),
               words=[], sugs=ss, name='suggested words')


def c12(deep):
    ws = list(strings('abc', 4))
    ss = ['ab', 'abc', 'cab', 'abab', 'ababa', 'cabab', 'bcabc', 'acbab'] + (['abcabc', 'bacba', 'ccaab'] if deep else [])
    yield menu('C12',
               affs('TRY abc|MAXNGRAMSUGS 0', 'TRY cb|MAXNGRAMSUGS 0', 'KEY abc|MAXNGRAMSUGS 0', 'KEY ca|b|TRY a|MAXNGRAMSUGS 0'),
               entries('ab', None, '', 'S'), entries('ba', None, ''), entries('cba', None, '', 'S'), entries('bac', None, 'S'),
               entries('cab', None, ''), entries('abca', None, ''), entries('acab', None, ''),
               affs(sfx('S 0 b .')),
               words=ws, sugs=ss, name='edits')


def c13(deep):
    ss = ['ab', 'aba', 'abab', 'bab', 'xa', 'axx', 'Abx', 'ABX']
    yield menu('C13',
               entries('a', '', None), entries('ab', None, ''), entries('axb', None, ''), entries('xaxa', None, ''), entries('bxb', None, ''),
               entries('xba', None, ''),
               affs('REP 1|REP a x', 'REP 2|REP b x|REP a xa', 'REP 2|REP b a|REP x b', 'REP 1|REP x b'),
               affs('', 'MAXNGRAMSUGS 0', 'TRY ab'),
               words=[], sugs=ss, name='replacements')
    yield menu('C20',
               entries('a', ''), entries('ab', None, ''), entries('axb', None, ''), entries('xay', None, ''), entries('b', None, ''),
               entries('a b', None, ''),
               affs('', 'REP 2|REP ^a x|REP b$ b', 'REP 1|REP ab a_b', 'REP 2|REP ^ab$ a|REP a axb', 'REP 1|REP a x|MAP 1|MAP b(ab)'),
               affs('', 'MAP 1|MAP axy', 'MAP 2|MAP a(xa)|MAP by', 'MAP 1|MAP (ab)y'),
               affs('MAXNGRAMSUGS 0', 'TRY a'),
               words=['ab', 'axb'], sugs=['ab', 'aa', 'yb', 'abab', 'xaa', 'bay', 'aab', 'Ab', 'YB'], name='replacements and maps')


def c14(deep):
    ws = list(strings('abc', 2))
    allw = ''.join(w + '\n' for w in strings('abc', 3))
    somew = ''.join(w + '/F\n' for w in strings('ab', 2))
    yield menu('C14',
               [('', allw), ('', somew), ('', allw + somew)],
               affs('TRY abc', 'TRY b'),
               affs('', 'MAXNGRAMSUGS 0', 'MAXNGRAMSUGS 1', 'MAXNGRAMSUGS 2', 'MAXNGRAMSUGS 10'),
               affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDMIN 1|COMPOUNDFLAG F|MAXCPDSUGS 0', 'COMPOUNDMIN 1|COMPOUNDFLAG F|MAXCPDSUGS 1'),
               affs('', 'OCONV 1|OCONV b a', 'OCONV 2|OCONV ab c|OCONV c a'),
               affs('', 'ONLYMAXDIFF', 'MAXDIFF 0'),
               words=ws, sugs=['abca', 'Aabb', 'BACA', 'cab-ca', 'abcd', 'bbbb'], name='limits')


def c15(deep):
    ss = ['abc', 'Abc', 'ABC', 'aBc', 'AbC', 'ABc', 'acb', 'Acb', 'ACB', 'aCb', 'abC', 'ab', 'AbcAb']
    yield menu('C15',
               affs('TRY abc', 'TRY ABab', 'TRY cC|MAXNGRAMSUGS 0'),
               entries('acbc', None, ''), entries('Acb', None, ''), entries('ACB', None, ''), entries('aCB', None, ''), entries('bC', None, ''),
               entries('ab', None, ''), entries('Cb', None, ''),
               words=[], sugs=ss, name='case of suggestions')


def c16(deep):
    ss = ['abcd', 'abdc', 'ccab', 'dabcab', 'Abcdd']
    yield menu('C16',
               entries('abcc', None, ''), entries('bcda', None, 'S'), entries('dabc', None, 'SP'), entries('abcdabcd', None, ''),
               entries('cdab', None, 'P'), entries('Dcba', None, ''),
               affs('', 'MAXDIFF 0', 'MAXDIFF 10', 'ONLYMAXDIFF', 'MAXNGRAMSUGS 2'),
               affs(sfx('S 0 d .')), affs(pfx('P 0 ab .')),
               words=list(strings('ab', 3)) + ['abcd', 'bcda', 'dabcab'], sugs=ss, name='similar words')


def c17(deep):
    ss = ['abcd', 'bacd', 'ccab', 'Dab']
    yield menu('C17',
               entries('abcc', None, ''), entries('bakd', None, ''), entries('kkab', None, ''), entries('abd', '', None), entries('Dabb', None, ''),
               affs('PHONE 2|PHONE A E|PHONE C K', 'PHONE 3|PHONE AB$ P|PHONE B^ V|PHONE CC- K', 'PHONE 2|PHONE B(AE) X|PHONE BA< Y',
                    'PHONE 3|PHONE C(AKC)- _|PHONE A^$ O|PHONE D T'),
               affs('', 'MAXNGRAMSUGS 0', 'MAXNGRAMSUGS 1', 'TRY ab'),
               words=['ab'], sugs=ss, name='sounds')


def c18(deep):
    ss = ['ab-ba', 'a-bb', 'bb-ab', 'a-b-bb', 'Ab-Bb', 'AB-BB', '-ab', 'ab-', 'a--b', 'bb-bb']
    yield menu('C18',
               affs('TRY ab', 'TRY ab-', 'MAXNGRAMSUGS 0'),
               entries('a', '', None, '~'), entries('ab', None, '', '!'), entries('b', None, ''), entries('aba', None, ''), entries('a-b', None, '', '!'),
               affs('FORBIDDENWORD !|NOSUGGEST ~'),
               affs('', 'BREAK 0', 'BREAK 1|BREAK b'),
               words=[], sugs=ss, name='hyphens')


def c20(deep):
    yield menu('C20',
               affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDRULE 1|COMPOUNDRULE F*', 'CHECKSHARPS', 'LANG tr', 'IGNORE a'),
               affs('', 'BREAK 2|BREAK a|BREAK ^-', 'ICONV 1|ICONV a -', 'OCONV 1|OCONV a -'),
               affs('', 'REP 1|REP a b-', 'MAP 1|MAP a(ab)', 'PHONE 1|PHONE A _', 'FORBIDDENWORD F'),
               entries('a', 'F', 'FS'), entries('a-b', None, 'F'),
               affs('', sfx('S a 0 .'), pfx('S a 0/S .')),
               words=['', '-', '--', 'a', 'A', '1', '.', '1-', 'ß', 'İ', 'a-', ' ', '\t', 'a b', '́', '𐐀'],
               sugs=['', '-', 'b', 'a-', 'B', '1', 'ß', 'İ', ' ', 'a b', '--b', '𐐀'], name='odd words')


def c21(deep):
    ss = ['ab', 'aab', 'abab', 'abb', 'aaba', 'baab'] + (['abbab', 'aabab'] if deep else [])
    yield menu('C21',
               affs('', 'TRY a', 'TRY b-', 'TRY b', 'NOSPLITSUGS', 'NOSPLITSUGS|TRY a'),
               entries('a', None, ''), entries('b', None, ''), entries('ab', None, '', 'S'), entries('aab', None, ''),
               entries('ab ab', None, ''), entries('a-ab', None, ''), entries('b aab', None, ''),
               affs('MAXNGRAMSUGS 0|' + sfx('S 0 b .')),
               words=[], sugs=ss, name='two words')


def alt(text, canon=None):
    """A part of an .aff file in some notation."""
    canon = text if canon is None else canon
    return (lines(*text.split('|')) if text else '', '', lines(*canon.split('|')) if canon else '', '')


def ent(text, canon=None):
    canon = text if canon is None else canon
    return ('', text + '\n', '', canon + '\n')


def c09(deep):
    sfx1 = 'SFX {0} Y 1|SFX {0} 0 b .'
    groups = [
        [alt('', ''), alt('# comment', ''), alt('|', ''), alt('NAME x y|VERSION 1', ''), alt('COMPLEXPREFIXES x', 'COMPLEXPREFIXES')],
    ]
    short = [
        [alt(sfx1.format('A')), alt('SFX A Y 1|SFX A 0 b', sfx1.format('A')), alt('SFX\tA  Y   1|SFX A\t0   b .  # x', sfx1.format('A')),
         alt(' SFX A Y 1|  SFX A 0 b .', sfx1.format('A')), alt('SFX A Y 1 x|SFX A 0 b . is:x', sfx1.format('A'))],
        [alt('REP 1|REP a b'), alt('REP 1|REP a  b # x', 'REP 1|REP a b'), alt('REP  1|REP\ta\tb', 'REP 1|REP a b')],
        [ent('ab/A'), ent('ab/A x', 'ab/A'), ent('ab/A\tpo:x', 'ab/A'), ent('ab/A  st:b', 'ab/A'), ent('  ab/A', 'ab/A'), ent('ab/A\n\n', 'ab/A'), ent('ab/A\tx po:y', 'ab/A')],
        [ent('a\\/b'), ent('a b'), ent('a b  po:x', 'a b'), ent('a\tpo:x', 'a'), ent('a\tx/y po:x', 'a'), ent('b/AA', 'b/A')],
    ]
    ws = ['a', 'b', 'ab', 'abb', 'a/b', 'a b', 'bb', 'x', 'po', 'x y', '', 'ab/A', 'a/bb', 'A', 'Ab']
    yield menu('C09', *groups, *short, words=ws, sugs=['aa', 'bab'], name='notation')
    long = [
        [alt('FLAG long', ''), alt('FLAG num', ''), alt('FLAG UTF-8', ''), alt('', '')],
    ]
    del long
    one = sfx1.format('A') + '|' + sfx1.format('B').replace(' b .', ' a .') + '|NEEDAFFIX N'
    for name, flags, aff, sep in (
            ('FLAG long', ('Aa', 'Bb', 'Nn'), '', ''),
            ('FLAG num', ('1', '65000', '17'), '', ','),
            ('FLAG UTF-8', ('é', 'β', 'ж'), '', '')):
        def put(t, fl):
            return t.replace(' A ', f' {fl[0]} ').replace(' B ', f' {fl[1]} ').replace('NEEDAFFIX N', f'NEEDAFFIX {fl[2]}')
        gs = [[alt(name + '|' + put(one, flags), one)]]
        for stem in ('a', 'ab', 'ba'):
            alts = []
            for fs in ('', 'A', 'AB', 'BN', 'N', 'ABN'):
                mine = sep.join(flags['ABN'.index(f)] for f in fs)
                alts.append(ent(stem + ('/' + mine if fs else ''), stem + ('/' + fs if fs else '')))
            gs.append(alts)
        yield menu('C09', *gs, words=list(strings('ab', 4)), sugs=['bb'], name='flags: ' + name)
    # numbered sets of flags
    gs = [[alt('AF 3|AF A|AF AB|AF BN|' + one, one)]]
    for stem in ('a', 'ab', 'ba'):
        gs.append([ent(stem), ent(stem + '/1', stem + '/A'), ent(stem + '/2', stem + '/AB'), ent(stem + '/3', stem + '/BN')])
    yield menu('C09', *gs, words=list(strings('ab', 4)), sugs=['bb'], name='flags: AF')


def relaw(law, menus_, words=None):
    for m in menus_:
        yield {**m, 'law': law, 'words': words or m['words']}


def c22(deep):
    ws = list(strings('ab', 5 if deep else 4))
    yield from relaw('C22', c01(False), ws)
    yield from relaw('C22', list(c02(False))[1:], ws)
    yield from relaw('C22', [m for m in c03(False)][1:], list(strings('ab', 5 if deep else 4, 2)))


def c23(deep):
    yield menu('C23',
               affs('NOSUGGEST ~|KEEPCASE K', 'NOSUGGEST ~|KEEPCASE K|BREAK 1|BREAK b'),
               entries('a', None, '', '~', 'K'), entries('Ab', None, '', '~', 'KF'), entries('ab', None, '~', 'F', 'FS'), entries('AB', None, 'F~'),
               entries('aBa', None, '~S'),
               affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDMIN 1|COMPOUNDRULE 1|COMPOUNDRULE FF*'), affs('', sfx('S 0 b .')),
               words=list(strings('aAbB', 3 if deep else 2)) + list(strings('ab', 4, 3)) + ['Aba', 'ABa', 'ABA', 'aBa', 'abA', 'a-b', 'a-a', 'A-a', 'Ab-a', 'AB-AB', 'aBa-A', '-a', '1', '1-a', ''],
               name='options of the checker')


def c24(deep):
    flags = {'short': ('A', 'B'), 'long': ('Aa', 'Bb'), 'num': ('12', '7')}
    for fmt, (a, b) in flags.items():
        sep = ',' if fmt == 'num' else ''
        head = f'FLAG {fmt}' if fmt != 'short' else ''
        yield menu('C24',
                   [alt(head), alt(head + '|' if head else '|', head)],
                   [ent(f'ab/{a}{sep}{b}'), ent(f'ab/{a}{sep}{b}\t'), ent(f'  ab/{a}{sep}{b}  ', f'ab/{a}{sep}{b}'), ent('ab'), ent('a b'), ent('a\\/b'), ent('ab\tx  po:y', 'ab\tx po:y')],
                   [ent(f'ab/{b}'), ent(f'Ab/{a} ph:bb'), ent(f'Ab/{a}\tph:bb', f'Ab/{a} ph:bb'), ent('AB'), ent(f'aB/{a}  po:x  po:y', f'aB/{a} po:x po:y'),
                    ent('ba\tis:q ph:c* ph:d->e', 'ba is:q ph:c* ph:d->e')],
                   [ent('ab'), ent(f'\nab/{b}{sep}{a}\n', f'ab/{b}{sep}{a}'), ent(f'b/{a} ph:c ph:d po:\n'), ent('ß\nSS')],
                   words=['ab', 'Ab', 'AB', 'aB', 'b', 'a b', 'a/b', 'ba', 'ss', 'SS', 'ß', 'a'], name='entries: flags ' + fmt)


def c25(deep):
    s1 = 'SFX A Y 1|SFX A 0 b .'
    yield menu('C25',
               [alt('PSEUDOROOT N', 'NEEDAFFIX N'), alt('NEEDAFFIX N # x', 'NEEDAFFIX N'), alt('NEEDAFFIX\tN', 'NEEDAFFIX N')],
               [alt(s1), alt('SFX  A Y\t1|SFX\tA  0 b .', s1), alt('SFX A Y 1|# x'.replace('# x', 'SFX A 0 b . # x'), s1), alt('SFX A Y 1||SFX A 0 b .', s1),
                alt('SFX A N 1|SFX A 0 c .|' + s1, s1)],
               [alt('PFX P N 2|PFX P a bb/AN [^a]b|PFX P 0 0 .'), alt('')],
               [alt('COMPOUNDLAST E', 'COMPOUNDEND E'), alt('COMPOUNDMIN 2'), alt('COMPOUNDMIN 5|COMPOUNDMIN 2', 'COMPOUNDMIN 2'), alt('FULLSTRIP x', 'FULLSTRIP')],
               [alt('REP 2|REP ^a$ b_c|REP a b'), alt('REP 1|REP x y|REP 1|REP a b', 'REP 1|REP a b'), alt('REP 1|REP a b c', 'REP 1|REP a b')],
               [alt('BREAK 0'), alt('MAP 1|MAP a(bc)d'), alt('Some text|KEY ab|cd'.replace('ab|cd', 'abcd'), 'KEY abcd'), alt('TRY ab # c', 'TRY ab')],
               words=['ab', 'b'], name='options')


def c26(deep):
    ss = ['ab', 'aba', 'abab', 'babb', 'aabb', 'ababa', 'bab-a', 'b-ab'] + (['abba', 'baab', 'bbaab'] if deep else [])
    yield menu('C26',
               entries('a', '', 'F'), entries('ab', None, '', 'F'), entries('bab', None, ''), entries('Aba', None, ''), entries('a b', None, ''),
               affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F', 'PHONE 2|PHONE A _|PHONE B P', 'FORCEUCASE U'),
               affs('TRY ab', 'TRY a|REP 1|REP b a', 'KEY ab|MAP 1|MAP ab', 'TRY b|MAXNGRAMSUGS 0'),
               entries('baba', None, 'U', ''), words=[], sugs=ss, name='kinds')


def c27(deep):
    cases = affs('', 'CHECKSHARPS', 'LANG tr', 'LANG de', 'CHECKSHARPS|LANG tr', 'LANG az_AZ')
    for letters, n in (('aAbB', 4), ('sSßa', 4), ('iIıİ', 4), ('éÉaA', 3), ('λΛδΔ', 3)):
        yield menu('C27', cases, entries('ab', ''), words=list(strings(letters, n + 1 if deep else n)), name='casing of ' + letters)


def c28(deep):
    ws = list(strings('ab', 5 if deep else 4)) + ['abc', 'cab', 'acb', 'abcabc', 'ababa', 'babab', 'bcbc', 'ABC', 'aBc']
    yield menu('C28',
               affs('', 'TRY ab', 'TRY ca', 'TRY b-'), affs('', 'KEY ab|c', 'KEY cab', 'KEY a|b'), affs('', 'REP 2|REP a b|REP ab c', 'REP 1|REP b ca'),
               affs('', 'MAP 1|MAP ab', 'MAP 1|MAP ac(bb)'), affs('', 'NOSPLITSUGS'), entries('ab', ''),
               words=list(strings('abc', 4 if deep else 3)), sugs=ws, name='candidates')


def c29(deep):
    """Pairs of dictionaries."""
    ws = list(strings('ab', 5))
    # another order
    settings = affs('COMPOUNDMIN 1|COMPOUNDFLAG F|TRY ab', 'NEEDAFFIX N|FORBIDDENWORD F|TRY b', 'COMPOUNDMIN 1|COMPOUNDRULE 1|COMPOUNDRULE A*F|CHECKCOMPOUNDREP|REP 1|REP a b',
                    'KEEPCASE F|NOSUGGEST N', 'PHONE 2|PHONE A A|PHONE B _|ONLYINCOMPOUND N|COMPOUNDFLAG F|COMPOUNDMIN 1')
    first, second, third = (['a', 'a/AF', 'Ab/F', 'aab/N'], ['ab', 'ab/NA', 'b/F', 'bba/F'], ['ba', 'ba/AF', 'aB/N', 'aba/FN'])
    swap = [('', ''.join(lines(x) for x in (a, b, c)), '', ''.join(lines(x) for x in (c, a, b))) for a in first for b in second for c in third]
    yield menu('C29', settings, affs('', sfx('A 0 b .'), pfx('A 0 b/N .')), swap, words=ws + ['AB', 'Ab', 'A', 'aB'], sugs=['ab', 'bab', 'abb', 'aaba', 'Ba', 'bbab'], name='order')
    # one more entry
    more = [('', lines(x, y), '', lines(x)) for x in ('a/AF', 'ab', 'Ba/F', 'b/N', 'ab/BF', 'aab/C') for y in ('a', 'b/F', 'ab/A', 'ba', 'Ba', 'AB/AF', 'b/AB', 'abb')]
    yield menu('C29+', affs('COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDMIN 1|COMPOUNDBEGIN F|COMPOUNDEND A', 'NEEDAFFIX N', 'FORBIDDENWORD N', 'KEEPCASE C', 'COMPOUNDMIN 1|COMPOUNDRULE 1|COMPOUNDRULE F*A',
                            'COMPOUNDMIN 1|COMPOUNDFLAG F|CHECKCOMPOUNDDUP', 'COMPOUNDMIN 1|COMPOUNDFLAG F|CHECKCOMPOUNDTRIPLE|CHECKCOMPOUNDCASE', 'ONLYINCOMPOUND N|COMPOUNDFLAG F|COMPOUNDMIN 1'),
               affs('', sfx('A 0 b .'), sfx('A 0 b/B .') + '|' + pfx('B 0 a .')), more, entries('bb', None, 'F'),
               words=ws + ['A', 'AB', 'Ab', 'aB', 'Ba', 'BA', 'bA'], name='one more entry')


def c30(deep):
    ss = ['abab', 'aabb', 'baba', 'abba', 'aba', 'Abab', 'babab'] + (['bbaab', 'aaaa', 'ababab'] if deep else [])
    yield menu('C30',
               affs('', 'MAXDIFF 2', 'MAXDIFF 8|ONLYMAXDIFF', 'MAXNGRAMSUGS 0', 'NOSUGGEST H'),
               affs('', 'PHONE 2|PHONE A A|PHONE B P', 'PHONE 2|PHONE AB- _|PHONE B B'),
               entries('abab', None, '', 'H'), entries('abb', None, 'A'), entries('Baba', None, '', 'AH'), entries('aabba', None, '', 'B'), entries('bb', None, 'AB'),
               affs('', sfx('A 0 a .', 'A b ab [ab]b') + '|' + pfx('B 0 b .')),
               sugs=ss, name='similar words')


def extra(*alternatives, base=''):
    """Lines which one dictionary of a pair has and the other one hasn't."""
    return [(lines(*(base + t).split('|')) if base + t else '', '', lines(*base.split('|')) if base else '', '') for t in alternatives]


def lessened(*alternatives, base=''):
    """The same with the restrictions in the other dictionary."""
    return [(ca, cd, a, d) for a, d, ca, cd in extra(*alternatives, base=base)]


def c31(deep):
    ws = list(strings('ab', 5 if deep else 4)) + ['A', 'Ab', 'AB', 'aB', 'ABA', 'Aba', 'a-b', 'ab-a', '1', '1a', 'a b']
    marked = [('', x, '', y) for x, y in (('a/FS\n', 'a/FS\n'), ('a/FS~\n', 'a/FS\n'), ('a/FS ph:b\n', 'a/FS\n'), ('a/F~\tpo:x ph:ba*\n', 'a/F\n'), ('a ph:b->ab\n', 'a\n'))]
    yield menu('C31',
               affs('COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDMIN 1|COMPOUNDRULE 1|COMPOUNDRULE F*S', 'KEEPCASE S|BREAK 1|BREAK b', 'ICONV 1|ICONV b a|FORBIDDENWORD S',
                    'COMPOUNDMIN 1|COMPOUNDFLAG F|CHECKCOMPOUNDDUP|SIMPLIFIEDTRIPLE', 'CHECKSHARPS|NEEDAFFIX S'),
               extra('', 'TRY ab', 'KEY ab|ba'.replace('|', '_'), 'REP 2|REP a b|REP ab b_a', 'MAP 1|MAP a(bb)', 'PHONE 2|PHONE A B|PHONE AB- _', 'OCONV 2|OCONV a b|OCONV b_ ab',
                     'NOSPLITSUGS', 'MAXNGRAMSUGS 0', 'MAXCPDSUGS 0', 'MAXDIFF 0', 'ONLYMAXDIFF', 'WORDCHARS ab', 'WARN F', 'SUBSTANDARD F'),
               [(lines('NOSUGGEST ~'), '', '', '')],
               marked, entries('ab', '', 'F', 'S'), entries('Bba', None, 'FS'),
               affs('', sfx('S 0 b .'), pfx('S 0 b/F .')),
               words=ws, name='settings of suggestions')


def c32(deep):
    ws = list(strings('ab', 6 if deep else 5)) + ['A', 'Ab', 'AB', 'aB', 'ABA', 'Aba', 'AbA', 'a-b', 'ab-a', 'a-']
    restrictions = lessened('COMPOUNDMIN 2', 'COMPOUNDWORDMAX 2', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'KEEPCASE S', 'KEEPCASE X',
                            'NEEDAFFIX F', 'NEEDAFFIX X', 'ONLYINCOMPOUND S', 'ONLYINCOMPOUND X', 'CIRCUMFIX X', 'COMPOUNDFORBIDFLAG X', 'FORBIDDENWORD X', 'FORBIDDENWORD S', 'BREAK 0',
                            'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN b a', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN a/X 0/F', base='COMPOUNDMIN 1|')
    yield menu('C32', restrictions,
               affs('COMPOUNDFLAG F', 'COMPOUNDBEGIN F|COMPOUNDEND S|COMPOUNDMIDDLE X', 'COMPOUNDRULE 2|COMPOUNDRULE F*S|COMPOUNDRULE X?F', 'COMPOUNDFLAG F|SIMPLIFIEDTRIPLE|COMPOUNDPERMITFLAG X'),
               entries('a', 'F', 'FS', 'FX', 'SX'), entries('abb', None, 'FS', 'X'), entries('Ba', None, 'FX', 'S') if deep else entries('Ba', None, 'FX'), entries('bb', None, 'FSX') if deep else entries('bb', None),
               affs(sfx('S 0 b .'), sfx('S 0 b/X .', cross='N') + '|' + pfx('X 0 b/FX .'), pfx('X 0 a/S .') if deep else pfx('X 0 a/SX .')),
               words=ws, name='restrictions')
    fewer = [(lines(*a.split('|')), '', lines(*b.split('|')) if b else '', '') for a, b in (
        (sfx('S 0 b .', 'S 0 a/X .'), sfx('S 0 b .')), (sfx('S 0 b/S .', 'S b a [^a]b'), sfx('S b a [^a]b')), (sfx('S 0 b .'), sfx('S 0 b b')),
        (pfx('X 0 b/S .') + '|' + sfx('S 0 a .'), sfx('S 0 a .')), (sfx('S 0 ab .') + '|' + pfx('X 0 a .'), sfx('S 0 ab .', cross='N') + '|' + pfx('X 0 a .')))]
    yield menu('C32', fewer, affs('', 'COMPOUNDMIN 1|COMPOUNDFLAG F', 'COMPOUNDMIN 1|COMPOUNDBEGIN F|COMPOUNDEND X', 'NEEDAFFIX X', 'CIRCUMFIX X'),
               lessened('') + [(lines('BREAK 2', 'BREAK a', 'BREAK ^b'), '', lines('BREAK 1', 'BREAK a'), '')],
               entries('a', 'S', 'FS', 'FX', 'SX'), entries('abb', None, 'FS', 'X'), entries('Ba', None, 'FX', 'S'),
               words=ws, name='fewer rules')


def c33(deep):
    yield menu('C33', affs(''), words=list(strings('ab', 5 if deep else 4)) + ['Ab', 'abc', 'cab', 'bcaa'], name='measures of texts')
    rules = ['A B', 'AB X', 'A^ C', 'B$ D', 'A(AB) _', 'AB- Y', 'BA-^ _', 'B(A)- BB', 'A^$ Z']
    some = affs(*('PHONE 1|PHONE ' + r for r in rules), *(f'PHONE 2|PHONE {r}|PHONE {s}' for r in rules for s in rules if r != s),
                *(f'PHONE 3|PHONE {r}|PHONE {s}|PHONE {t}' for r in rules for s in rules for t in rules if deep and len({r, s, t}) == 3))
    yield menu('C33', some, entries('ab', ''), words=list(strings('ab', 6)) + ['A', 'Ab', 'aB', 'aBA', 'cab', 'acb'], name='phonetic codes')


def c35(deep):
    ws = list(strings('ab', 5 if deep else 4))
    rows = ['a b', 'ab a', '_a bb', 'b_ a', 'ba _', 'aa ab', '_b_ aa']
    yield menu('C35', affs('', *('ICONV 1|ICONV ' + r for r in rows), *(f'ICONV 2|ICONV {r}|ICONV {s}' for r in rows for s in rows if r != s)),
               affs('', *('OCONV 1|OCONV ' + r for r in (rows if deep else rows[:3]))),
               words=ws + ['aB', 'cab'], name='conversions')
    rules = ['AB', 'A*B', 'A?B', 'AB*', 'A*B*', 'AB?', 'A*BA?', 'ABA', 'A', 'A*', 'BA?B*A', 'AA*B', 'A?A']
    yield menu('C35', affs(*('COMPOUNDRULE 1|COMPOUNDRULE ' + r for r in rules), *(f'COMPOUNDRULE 2|COMPOUNDRULE {r}|COMPOUNDRULE {s}' for r in rules for s in rules[:4] if r != s)),
               entries('a', 'A'), words=['a'], name='compound rules')
    pats = ['a b', '0 b', 'a 0', 'a/A b', 'a b/B', 'b/B a/A', '0/A 0', 'ab a', '0 0/B']
    yield menu('C35', affs(*(f'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN {p}' for p in pats), *(f'CHECKCOMPOUNDPATTERN 2|CHECKCOMPOUNDPATTERN {p}|CHECKCOMPOUNDPATTERN {q}' for p in pats for q in pats if deep and p != q)),
               affs(sfx('A 0 b .'), pfx('A 0 a/B .'), sfx('A b a/B .') + '|' + pfx('B 0 b .')),
               entries('ab', 'A', 'AB', ''), entries('b', 'B', 'A', None), entries('a', None, 'B', 'A'), words=list(strings('ab', 3)), name='patterns')
    yield menu('C35', affs('', sfx('A 0 b .'), sfx('A b a b'), sfx('A 0 a [^a]', 'A 0 bb a'), sfx('A 0 b .', cross='N'), sfx('A b 0 .b')),
               affs('', sfx('B 0 a .'), sfx('B a b a', cross='N')), affs('', pfx('P 0 a .'), pfx('P 0 b a'), pfx('P 0 ba [^b]', cross='N')),
               entries('ab', '', 'A', 'AP', 'ABP', 'B'), entries('ba', None, 'P', 'AB', 'ABP'), words=ws, name='forms')


MENUS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C11': c11,
         'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C20': c20, 'C21': c21,
         'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30, 'C31': c31, 'C32': c32, 'C33': c33,
         'C35': c35}


def menus(prop, deep):
    return list(MENUS[prop](deep)) if prop in MENUS else []
