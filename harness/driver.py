"""Runs requests in the real library and records what it did.

    driver.py JOB OUT [WORKER]

JOB is a JSON file {"files": [{"aff": <latin-1 text of bytes>, "dic": ...}], "runs": [[request, ...], ...]}.
OUT gets one line per run: {"run": number, "events": [result, ...]}.  Results are {"k": kind, "v": value}:
texts are lists of code points, an exception is {"k": "exc", "v": text}, no answer in time is "timeout",
death of the process is "crash".

Only the documented interface is used: Dictionary.from_files/from_zip/from_system, lookup and suggest, and (C22-C30)
the attributes lookuper, suggester, dic and aff, (C33) the modules string_metrics and phonet_suggest, (C34) the classes
FileReader and ZipReader, (C35) the tables of aff and ngram_suggest.forms_for.
The process works in a scratch directory of its own, given by the caller as the current directory.
"""

import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import threading
import time
import zipfile

OP_TIMEOUT = int(os.environ.get('VP_OP_TIMEOUT', '25'))
MAX_TIMEOUTS = 2
PROCS = int(os.environ.get('VP_PROCS', '8'))
HASHSEED = int(os.environ.get('VP_HASHSEED', '0'))
MEMORY = 3 << 30
MAX_SUGGESTIONS = 1000
MAX_EDITS = 20000


class Timeout(BaseException):
    pass


def on_alarm(_sig, _frame):
    raise Timeout()


def cps(text):
    return [ord(c) for c in text]


def text(codes):
    return ''.join(map(chr, codes))


class Fresh:
    """A process which has only imported the library; every request is answered by a fork of it."""

    def __init__(self):
        self.ask_r, self.ask_w = os.pipe()
        self.ans_r, self.ans_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.ask_w)
            os.close(self.ans_r)
            try:
                self.serve()
            finally:
                os._exit(0)
        os.close(self.ask_r)
        os.close(self.ans_w)
        self.answers = os.fdopen(self.ans_r, 'r', encoding='ascii')

    def serve(self):
        for line in os.fdopen(self.ask_r, 'r', encoding='ascii'):
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, on_alarm)
                res = {'k': 'crash', 'v': [0]}
                try:
                    signal.setitimer(signal.ITIMER_REAL, OP_TIMEOUT - 5)
                    res = self.answer(json.loads(line))
                except Timeout:
                    res = {'k': 'timeout', 'v': []}
                except Exception as e:      # pylint: disable=broad-except
                    res = failure(e)
                finally:
                    data = (json.dumps(res) + '\n').encode('ascii')
                    while data:
                        data = data[os.write(self.ans_w, data):]
                    os._exit(0)
            _pid, status = os.waitpid(pid, 0)
            if status:
                os.write(self.ans_w, b'{"k": "crash", "v": [0]}\n')

    @staticmethod
    def answer(ask):
        from spylls.hunspell import Dictionary
        d = Dictionary.from_files(ask['path'])
        req = ask['req']
        if req['op'] == 'lookup':
            return {'k': 'bool', 'v': bool(d.lookup(text(req['w'])))}
        if req['op'] == 'scan':
            return {'k': 'scan', 'v': [bool(d.lookup(text(w))) for w in req['ws']]}
        return {'k': 'list', 'v': [cps(s) for s in d.suggest(text(req['w']))]}

    def ask(self, question):
        os.write(self.ask_w, (json.dumps(question) + '\n').encode('ascii'))
        return json.loads(self.answers.readline())

    def close(self):
        os.close(self.ask_w)
        os.waitpid(self.pid, 0)


BOOLS = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
         'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE',
         'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'SUBSTANDARD', 'SYLLABLENUM',
         'COMPOUNDROOT']
INTS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']
TEXTS = ['KEY', 'TRY', 'WORDCHARS', 'LANG']


CAPTYPES = ['NO', 'INIT', 'ALL', 'HUH', 'HUHINIT']


def texts(items):
    return [cps(x) for x in items]


def flag_list(flags):
    return [cps(f) for f in sorted(flags)]


def shown_affix(a):
    return {'flag': cps(a.flag), 'cross': bool(a.crossproduct), 'strip': cps(a.strip), 'add': cps(a.add), 'cond': cps(a.condition),
            'flags': flag_list(a.flags)}


def shown_form(f):
    entry = f.in_dictionary
    return {'text': cps(f.text), 'stem': cps(f.stem), 'pre': [shown_affix(a) for a in (f.prefix, f.prefix2) if a],
            'suf': [shown_affix(a) for a in (f.suffix, f.suffix2) if a],
            'entry': [{'stem': cps(entry.stem), 'flags': flag_list(entry.flags)}] if entry else []}


class Session:
    fresh = None

    def __init__(self, files, number):
        self.files = files
        self.dir = os.path.join(os.getcwd(), f'run{number}')
        os.mkdir(self.dir)
        self.slots = {}
        self.iters = {}
        self.readers = {}
        self.paths = {}

    def close(self):
        for root, dirs, names in os.walk(self.dir, topdown=False):
            for n in names:
                os.unlink(os.path.join(root, n))
            for n in dirs:
                os.rmdir(os.path.join(root, n))
        os.rmdir(self.dir)

    def put(self, path, content):
        full = os.path.join(self.dir, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as out:
            out.write(content.encode('latin-1'))
        return full

    def write(self, number):
        if number not in self.paths:
            pair = self.files[number - 1]
            self.put(f'f{number}/dict.aff', pair['aff'])
            self.put(f'f{number}/dict.dic', pair['dic'])
            self.paths[number] = os.path.join(self.dir, f'f{number}', 'dict')
        return self.paths[number]

    def do(self, ev):
        return getattr(self, 'op_' + ev['op'])(ev)

    # --- opening -----------------------------------------------------------------------------
    def op_open(self, ev):
        from spylls.hunspell import Dictionary
        self.slots[ev['slot']] = Dictionary.from_files(self.write(ev['file']))
        return {'k': 'done', 'v': []}

    def op_layout(self, ev):
        """Creates files (numbers of pairs), zip archives and directories for the opening requests below."""
        for item in ev['items']:
            pair = self.files[item['file'] - 1] if 'file' in item else None
            if item['kind'] == 'pair':
                self.put(item['path'] + '.aff', pair['aff'])
                self.put(item['path'] + '.dic', pair['dic'])
            elif item['kind'] == 'half':
                self.put(item['path'], pair[item['which']])
            elif item['kind'] == 'dir':
                os.makedirs(os.path.join(self.dir, item['path']), exist_ok=True)
            elif item['kind'] == 'zip':
                full = os.path.join(self.dir, item['path'])
                os.makedirs(os.path.dirname(full), exist_ok=True)
                comp = zipfile.ZIP_DEFLATED if item.get('deflate') else zipfile.ZIP_STORED
                with zipfile.ZipFile(full, 'w', comp) as z:
                    for name, which in item['entries']:
                        z.writestr(name, pair[which].encode('latin-1') if which in ('aff', 'dic')
                                   else which.encode('latin-1'))
        return {'k': 'done', 'v': []}

    def op_openat(self, ev):
        from spylls.hunspell import Dictionary
        before = self.snapshot()
        how = ev['how']
        if how == 'files':
            d = Dictionary.from_files(os.path.join(self.dir, ev['path']))
        elif how == 'zip':
            d = Dictionary.from_zip(os.path.join(self.dir, ev['path']))
        elif how == 'system':
            class Here(Dictionary):
                PATHES = [os.path.join(self.dir, p) for p in ev['dirs']]
            try:
                d = Here.from_system(ev['path'])
            except LookupError as e:
                if type(e) is LookupError:      # pylint: disable=unidiomatic-typecheck
                    return {'k': 'nofile', 'v': []}
                raise
        elif how == 'name':         # a name without directory, from the directory given
            old = os.getcwd()
            os.chdir(os.path.join(self.dir, ev['cwd']))
            try:
                d = Dictionary.from_files(ev['path'])
            finally:
                os.chdir(old)
        self.slots[ev['slot']] = d
        if self.snapshot() != before:
            return {'k': 'changed', 'v': []}
        return {'k': 'done', 'v': []}

    def snapshot(self):
        res = {}
        for root, _dirs, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(root, n)
                with open(p, 'rb') as f:
                    res[p] = f.read()
        return res

    def op_forget(self, ev):
        del self.slots[ev['slot']]
        return {'k': 'done', 'v': []}

    def op_fresh(self, ev):
        """The answer to one request in a process where nothing else happened."""
        path = self.write(ev['file'])
        return self.fresh.ask({'path': path, 'req': ev['req']})

    # --- requests ----------------------------------------------------------------------------
    def op_lookup(self, ev):
        res = self.slots[ev['slot']].lookup(text(ev['w']))
        return {'k': 'bool', 'v': bool(res)}

    def op_scan(self, ev):
        d = self.slots[ev['slot']]
        return {'k': 'scan', 'v': [bool(d.lookup(text(w))) for w in ev['ws']]}

    def suggest(self, slot, word):
        res = []
        for s in self.slots[slot].suggest(text(word)):
            res.append(cps(s))
            if len(res) > MAX_SUGGESTIONS:
                raise RuntimeError('too many suggestions')
        return {'k': 'list', 'v': res}

    def op_suggest(self, ev):
        return self.suggest(ev['slot'], ev['w'])

    # --- documented objects behind the dictionary --------------------------------------------
    def op_kinds(self, ev):
        res = []
        for s in self.slots[ev['slot']].suggester.suggestions(text(ev['w'])):
            res.append({'text': cps(s.text), 'kind': s.kind})
            if len(res) > MAX_SUGGESTIONS:
                raise RuntimeError('too many suggestions')
        return {'k': 'kinds', 'v': res}

    def op_checks(self, ev):
        check, o = self.slots[ev['slot']].lookuper, ev['opt']
        return {'k': 'scan', 'v': [bool(check(text(w), capitalization=o['cap'], allow_nosuggest=o['nosug'])) for w in ev['ws']]}

    def op_forms(self, ev):
        look, o = self.slots[ev['slot']].lookuper, ev['opt']
        res = []
        for w in ev['ws']:
            forms = {}       # readings, each once
            for f in look.good_forms(text(w), capitalization=o['cap'], allow_nosuggest=o['nosug'],
                                     affix_forms=o['aff'], compound_forms=o['comp']):
                comp = hasattr(f, 'parts')
                shown = {'comp': comp, 'parts': [shown_form(p) for p in (f.parts if comp else [f])]}
                forms[json.dumps(shown)] = shown
            res.append(list(forms.values()))
        return {'k': 'forms', 'v': res}

    def op_entries(self, ev):
        return {'k': 'entries', 'v': [
            {'stem': cps(w.stem), 'flags': flag_list(w.flags), 'alt': [cps(a) for a in w.alt_spellings], 'cap': w.captype.name,
             'data': [{'tag': cps(k), 'values': [cps(x) for x in v]} for k, v in sorted(w.data.items())]}
            for w in self.slots[ev['slot']].dic.words]}

    def op_homonyms(self, ev):
        dic = self.slots[ev['slot']].dic
        number = {id(w): n + 1 for n, w in enumerate(dic.words)}
        return {'k': 'homonyms', 'v': [
            {'exact': [number[id(w)] for w in dic.homonyms(text(s))],
             'low': [number[id(w)] for w in dic.homonyms(text(s), ignorecase=True)]} for s in ev['ws']]}

    def op_flagged(self, ev):
        dic = self.slots[ev['slot']].dic
        return {'k': 'flagged', 'v': [
            {'any': bool(dic.has_flag(text(q['stem']), text(q['flag']))),
             'all': bool(dic.has_flag(text(q['stem']), text(q['flag']), for_all=True))} for q in ev['qs']]}

    def op_options(self, ev):
        aff = self.slots[ev['slot']].aff

        def named(names, show):
            return [{'name': n, 'value': show(getattr(aff, n))} for n in names if getattr(aff, n) not in (None, '')]

        def tables(tabs):
            return [{'flag': cps(f), 'rows': [shown_affix(r) for r in rows]} for f, rows in sorted(tabs.items())]

        def pairs(rows):
            return [[cps(x) for x in row] for row in rows or []]

        return {'k': 'options', 'v': {
            'bools': [n for n in BOOLS if getattr(aff, n)],
            'flags': named(FLAGS, cps), 'texts': named(TEXTS, cps),
            'ints': [{'name': n, 'value': getattr(aff, n) or 0} for n in INTS],
            'ignore': cps(aff.IGNORE.chars) if aff.IGNORE else [],
            'brk': [cps(b.pattern) for b in aff.BREAK],
            'rep': [{'pat': cps(r.pattern), 'repl': cps(r.replacement)} for r in aff.REP],
            'map': [[cps(x) for x in row] for row in aff.MAP],
            'iconv': pairs(aff.ICONV and aff.ICONV.pairs), 'oconv': pairs(aff.OCONV and aff.OCONV.pairs),
            'rules': [cps(r.text) for r in aff.COMPOUNDRULE],
            'patterns': [[cps(p.left), cps(p.right), cps(p.replacement or '')] for p in aff.CHECKCOMPOUNDPATTERN],
            'phone': [{'key': cps(a), 'repl': cps(b)} for a, b in (aff.PHONE.table if aff.PHONE else [])],
            'af': [flag_list(aff.AF[str(n + 1)]) for n in range(len(aff.AF))],
            'am': [flag_list(aff.AM[str(n + 1)]) for n in range(len(aff.AM))],
            'enc': cps(aff.SET), 'fmt': cps(aff.FLAG),
            'sfx': tables(aff.SFX), 'pfx': tables(aff.PFX)}}

    def op_casing(self, ev):
        casing, res = self.slots[ev['slot']].aff.casing, []
        types = casing.guess('a').__class__
        for w in map(text, ev['ws']):
            cap, variants = casing.variants(w)
            cap2, corrections = casing.corrections(w)
            guess = casing.guess(w)
            res.append({'guess': guess.name if guess == cap == cap2 else 'different', 'lower': texts(casing.lower(w)), 'upper': cps(casing.upper(w)),
                        'capital': texts(casing.capitalize(w)), 'first': texts(casing.lowerfirst(w)), 'variants': texts(variants),
                        'corrections': texts(corrections), 'coerced': texts(casing.coerce(w, types[n]) for n in CAPTYPES)})
        return {'k': 'casing', 'v': res}

    def op_edits(self, ev):
        res = []
        for s in self.slots[ev['slot']].suggester.edits(text(ev['w'])):
            several = hasattr(s, 'words')
            res.append({'kind': s.kind if not several else s.source, 'ws': texts(s.words) if several else [cps(s.text)],
                        'dash': bool(several and s.allow_dash)})
            if len(res) > MAX_EDITS:
                raise RuntimeError('too many edits')
        return {'k': 'edits', 'v': res}

    def op_near(self, ev):
        suggester, known = self.slots[ev['slot']].suggester, {text(w) for w in ev['known']}
        return {'k': 'near', 'v': {'ngram': texts(suggester.ngram_suggestions(text(ev['w']), handled=known)),
                                   'phonet': texts(suggester.phonet_suggestions(text(ev['w'])))}}

    def op_measures(self, ev):
        from spylls.hunspell.algo import string_metrics as sm
        res = []
        for a, b in ev['qs']:
            a, b = text(a), text(b)
            res.append([sm.commoncharacters(a, b), sm.leftcommonsubstring(a, b), sm.lcslen(a, b)]
                       + [sm.ngram(c['n'], a, b, weighted=c['weighted'], any_mismatch=c['mode'] == 'any', longer_worse=c['mode'] == 'longer')
                          for c in ev['combos']])
        return {'k': 'measures', 'v': res}

    def op_codes(self, ev):
        from spylls.hunspell.algo import phonet_suggest
        table = self.slots[ev['slot']].aff.PHONE
        return {'k': 'codes', 'v': [cps(phonet_suggest.metaphone(table, text(w))) if table else [] for w in ev['ws']]}

    # --- tables by themselves ----------------------------------------------------------------
    def op_convs(self, ev):
        aff = self.slots[ev['slot']].aff
        return {'k': 'convs', 'v': [texts(table(text(w)) if table else text(w) for table in (aff.ICONV, aff.OCONV)) for w in ev['ws']]}

    def op_rules(self, ev):
        rules, res = self.slots[ev['slot']].aff.COMPOUNDRULE, []
        for q in ev['qs']:
            sets = [{text(f) for f in fs} for fs in q]
            res.append([[bool(rule.fullmatch(sets)), bool(rule.partial_match(sets))] for rule in rules])
        return {'k': 'rules', 'v': res}

    def op_patterns(self, ev):
        dictionary, res = self.slots[ev['slot']], []
        for q in ev['qs']:
            lefts, rights = ([*dictionary.lookuper.good_forms(text(w), capitalization=False, compound_forms=False)] for w in q)
            res.append([[found(bool(pattern.match(left, right)) for left in lefts for right in rights) for found in (any, all)]
                        for pattern in dictionary.aff.CHECKCOMPOUNDPATTERN])
        return {'k': 'patterns', 'v': res}

    def op_made(self, ev):
        from spylls.hunspell.algo import ngram_suggest
        dictionary, w = self.slots[ev['slot']], text(ev['w'])
        aff = dictionary.aff
        return {'k': 'made', 'v': [texts(ngram_suggest.forms_for(entry, aff.PFX, aff.SFX, similar_to=w)) for entry in dictionary.dic.words]}

    # --- readers of files --------------------------------------------------------------------
    def op_ropen(self, ev):
        from spylls.hunspell.readers import file_reader
        path = self.write(ev['file']) + '.' + ev['part']
        if ev['how'] == 'file':
            reader = file_reader.FileReader(path, encoding=ev['spelled'])
        else:
            full = os.path.join(self.dir, f"r{ev['file']}.zip")
            if not os.path.exists(full):
                with zipfile.ZipFile(full, 'w', zipfile.ZIP_DEFLATED) as z:
                    for part in ('aff', 'dic'):
                        z.write(self.write(ev['file']) + '.' + part, 'in/dict.' + part)
            reader = file_reader.ZipReader(zipfile.ZipFile(full).open('in/dict.' + ev['part']), encoding=ev['spelled'])
        self.readers[ev['rd']] = reader
        return {'k': 'done', 'v': []}

    def op_rnext(self, ev):
        if ev['rd'] not in self.readers:
            return {'k': 'absent', 'v': []}
        try:
            number, line = next(self.readers[ev['rd']])
            return {'k': 'line', 'v': {'no': number, 'text': cps(line)}}
        except StopIteration:
            return {'k': 'end', 'v': []}

    def op_rrest(self, ev):
        if ev['rd'] not in self.readers:
            return {'k': 'absent', 'v': []}
        return {'k': 'lines', 'v': [{'no': number, 'text': cps(line)} for number, line in self.readers[ev['rd']]]}

    def op_renc(self, ev):
        if ev['rd'] not in self.readers:
            return {'k': 'absent', 'v': []}
        self.readers[ev['rd']].reset_encoding(ev['spelled'])
        return {'k': 'done', 'v': []}

    def op_start(self, ev):
        self.iters[ev['it']] = iter(self.slots[ev['slot']].suggest(text(ev['w'])))
        return {'k': 'done', 'v': []}

    def op_next(self, ev):
        try:
            return {'k': 'text', 'v': cps(next(self.iters[ev['it']]))}
        except StopIteration:
            return {'k': 'end', 'v': []}

    def op_drop(self, ev):
        del self.iters[ev['it']]
        return {'k': 'done', 'v': []}

    def op_threads(self, ev):
        """Several threads with a list of requests each; the answers in the order of requests."""
        results = [None] * len(ev['lists'])
        old = sys.getswitchinterval()
        barrier = threading.Barrier(len(ev['lists']))

        def work(i, reqs):
            res = []
            barrier.wait()
            for r in reqs:
                try:
                    res.append(self.do(r))
                except Exception as e:      # pylint: disable=broad-except
                    res.append(failure(e))
            results[i] = res

        sys.setswitchinterval(ev.get('interval', 1e-6))
        try:
            ts = [threading.Thread(target=work, args=(i, r), daemon=True) for i, r in enumerate(ev['lists'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        return {'k': 'threads', 'v': results}


def failure(e):
    return {'k': 'exc', 'v': f'{type(e).__name__}: {e}'[:300].encode('ascii', 'backslashreplace').decode()}


def absent(ev, e):
    """Is it this file which asked an object behind the dictionary for a name it doesn't have?"""
    if ev['op'] not in ('kinds', 'checks', 'forms', 'entries', 'homonyms', 'flagged', 'options', 'casing', 'edits', 'near', 'measures', 'codes',
                        'ropen', 'convs', 'rules', 'patterns', 'made'):
        return False
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return (tb.tb_frame.f_code.co_filename == __file__ and "'NoneType'" not in str(e)
            and (isinstance(e, (AttributeError, ImportError)) or isinstance(e, TypeError) and re.search('unexpected keyword|positional argument|keyword-only', str(e))))


def run_one(files, number, events, state):
    session = Session(files, number)
    out = []
    try:
        for ev in events:
            signal.setitimer(signal.ITIMER_REAL, ev.get('timeout', OP_TIMEOUT))
            try:
                res = session.do(ev)
            except Timeout:
                if ev.get('late'):      # no answer in time is all right: the run ends here
                    break
                res = {'k': 'timeout', 'v': []}
                state['timeouts'] += 1
            except Exception as e:      # pylint: disable=broad-except
                res = {'k': 'absent', 'v': []} if absent(ev, e) else failure(e)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.append(res)
            if res['k'] == 'timeout' or (res['k'] == 'exc' and ev['op'] in ('open', 'openat') and not ev.get('mayfail')):
                break
    finally:
        session.close()
    return out


def worker(files, runs, numbers, path):
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    random.seed(0)
    state = {'timeouts': 0}
    import spylls.hunspell      # pylint: disable=unused-import
    needs_fresh = any(ev['op'] == 'fresh' for n in numbers for ev in runs[n - 1])
    if needs_fresh:
        Session.fresh = Fresh()
    with open(path, 'w', encoding='ascii') as out:
        for n in numbers:
            out.write(json.dumps({'begin': n}) + '\n')
            out.flush()
            res = run_one(files, n, runs[n - 1], state)
            out.write(json.dumps({'run': n, 'events': res}, separators=(',', ':')) + '\n')
            out.flush()
            if state['timeouts'] >= MAX_TIMEOUTS:
                break
    if needs_fresh:
        Session.fresh.close()


def main(job_path, out_path, number=None):
    with open(job_path, encoding='ascii') as f:
        job = json.load(f)
    import spylls.hunspell
    repo = os.environ.get('VP_REPO', '/repo')
    if not os.path.realpath(spylls.hunspell.__file__).startswith(os.path.realpath(repo) + os.sep):
        print('wrong library: ' + spylls.hunspell.__file__, file=sys.stderr)
        return 3
    n = len(job['runs'])
    if number is not None:
        worker(job['files'], job['runs'], range(int(number) + 1, n + 1, PROCS), out_path)
        return 0
    procs = []
    for k in range(min(PROCS, max(1, n))):
        part = f'{out_path}.{k}'
        with open(part, 'w', encoding='ascii'):
            pass
        # what the order of sets decides differs between the workers
        env = dict(os.environ, PYTHONHASHSEED=str(HASHSEED + k))
        procs.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), job_path, part, str(k)], env=env), part))
    deadline = time.time() + float(os.environ.get('VP_DRIVER_LIMIT', '400'))
    for p, _part in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    with open(out_path, 'w', encoding='ascii') as out:
        for p, part in procs:
            begun = None
            with open(part, encoding='ascii') as f:
                for line in f:
                    if not line.endswith('\n'):
                        break
                    rec = json.loads(line)
                    if 'begin' in rec:
                        begun = rec['begin']
                    else:
                        begun = None
                        out.write(line)
            if begun is not None:
                out.write(json.dumps({'run': begun, 'crash': p.returncode}) + '\n')
    return 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
