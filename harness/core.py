"""Scenarios, runs of the library, runs of TLC, verdicts and evidence."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import tables

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CLASSPATH = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
PROCS = int(os.environ.get('VP_PROCS', '8'))
OWN_KINDS = ('done', 'bool', 'scan', 'list', 'text', 'end')


class CheckError(Exception):
    """The check itself failed (exit 2)."""


def cps(text):
    return [ord(c) for c in text]


def text(codes):
    return ''.join(map(chr, codes))


def to_bytes(content, encoding='UTF-8'):
    """str -> latin-1 text of its bytes, which is how file contents travel in JSON."""
    if isinstance(content, bytes):
        return content.decode('latin-1')
    return content.encode(tables.codec(encoding), 'surrogateescape' if encoding != 'UTF-8' else 'surrogatepass').decode('latin-1')


class Job:
    """Files and runs of one check."""

    def __init__(self):
        self.files = []
        self.runs = []
        self.notes = []
        self.encodings = set()
        self.chars = set()
        self.bundled = []
        self.opaque = set()      # files which the specification doesn't need to read

    def file(self, aff, dic, encoding='UTF-8', opaque=False):
        self.files.append({'aff': to_bytes(aff, encoding), 'dic': to_bytes(dic, encoding)})
        if encoding != 'UTF-8':
            self.encodings.add(encoding)
        if not opaque:
            for content in (aff, dic):
                if isinstance(content, str):
                    self.chars.update(map(ord, content))
                else:
                    for enc in {encoding, 'latin-1', 'Windows-1252', 'UTF-8'}:
                        self.chars.update(map(ord, content.decode(tables.codec(enc), 'replace')))
                    self.chars.update(range(0xdc80, 0xdd00))
        else:
            self.opaque.add(len(self.files))
        return len(self.files)

    def run(self, events, note=''):
        for ev in events:
            ev.setdefault('j', 'exact')
        self.runs.append(events)
        self.notes.append(note)
        return len(self.runs)

    def simple(self, aff, dic, scan=(), suggest=(), encoding='UTF-8', note='', judge='exact', sug_judge=None,
               per_scan=400):
        """One dictionary: look up the words of scan, ask suggestions for those of suggest."""
        n = self.file(aff, dic, encoding)
        evs = [{'op': 'open', 'slot': 1, 'file': n}]
        scan = list(dict.fromkeys(scan))
        for i in range(0, len(scan), per_scan):
            evs.append({'op': 'scan', 'slot': 1, 'ws': [cps(w) for w in scan[i:i + per_scan]], 'j': judge})
        for w in dict.fromkeys(suggest):
            evs.append({'op': 'suggest', 'slot': 1, 'w': cps(w), 'j': sug_judge or judge})
        self.run(evs, note)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vp-')
        return self.path

    def __exit__(self, *_args):
        shutil.rmtree(self.path, ignore_errors=True)


def library_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=REPO, PYTHONUTF8='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/opt/vp/no-pycache', LC_ALL='C.UTF-8', VP_REPO=REPO)
    return env


def run_library(job, scratch, limit=400, procs=PROCS, hashseed=0):
    """Runs the job in the library; returns the list of results per run (None: not run)."""
    work = os.path.join(scratch, 'work')
    os.mkdir(work)
    job_path = os.path.join(scratch, 'job.json')
    out_path = os.path.join(scratch, 'out.json')
    with open(job_path, 'w', encoding='ascii') as f:
        json.dump({'files': job.files, 'runs': job.runs}, f, separators=(',', ':'))
    env = library_env()
    env['VP_DRIVER_LIMIT'] = str(limit)
    env['VP_PROCS'] = str(procs)
    env['VP_HASHSEED'] = str(hashseed)
    proc = subprocess.run([PY, os.path.join(HERE, 'driver.py'), job_path, out_path], cwd=work, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 60, check=False)
    if proc.returncode != 0:
        raise CheckError('driver: ' + proc.stderr.decode('utf8', 'replace')[-2000:])
    results = [None] * len(job.runs)
    with open(out_path, encoding='ascii') as f:
        for line in f:
            rec = json.loads(line)
            if 'crash' in rec:
                results[rec['run'] - 1] = [{'k': 'crash', 'v': [rec['crash'] or 0]}]
            else:
                results[rec['run'] - 1] = rec['events']
    return results


def collect_chars(value, chars):
    if isinstance(value, list):
        if value and isinstance(value[0], int) and not isinstance(value[0], bool):
            chars.update(value)
        else:
            for v in value:
                collect_chars(v, chars)


def traces(job, results):
    """Events with results, in the form the specification reads; threads are unfolded."""
    runs = []
    index = []       # for each trace: (run, [event number or (event, thread, request)])
    missing = 0
    for n, (events, res) in enumerate(zip(job.runs, results)):
        if res is None:
            missing += 1
            continue
        out = []
        where = []
        for i, (ev, r) in enumerate(zip(events, res)):
            if ev['op'] == 'threads' and r['k'] == 'threads':
                for t, (reqs, answers) in enumerate(zip(ev['lists'], r['v'])):
                    for q, (req, a) in enumerate(zip(reqs, answers)):
                        out.append({**req, 'j': req.get('j', ev['j']), 'res': a})
                        where.append((i, t, q))
            elif ev['op'] == 'threads':
                out.append({**ev['lists'][0][0], 'j': ev['j'], 'res': r})
                where.append((i, 0, 0))
            else:
                out.append({**ev, 'res': r})
                where.append(i)
        runs.append(out)
        index.append((n, where))
    return runs, index, missing


TLC_SIMULATED = re.compile(r'^The number of states generated: (\d[\d,]*)', re.M)
TLC_STATS = re.compile(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', re.M)


def run_tlc(module, scratch, env, config=None, workers=8, limit=800, heap='12g', extra=()):
    meta = os.path.join(scratch, 'meta-' + module)
    dump = os.path.join(scratch, f'ce-{module}.json')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', f'-Xmx{heap}', '-Djava.io.tmpdir=' + scratch, '-cp', CLASSPATH, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-dumpTrace', 'json', dump,
           '-config', os.path.join(SPEC, config or module + '.cfg'), *extra, os.path.join(SPEC, module + '.tla')]
    full = dict(os.environ)
    full.update(env)
    try:
        proc = subprocess.run(cmd, cwd=scratch, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=limit, check=False)
    except subprocess.TimeoutExpired as e:
        raise CheckError(f'TLC did not finish {module} in {limit} s') from e
    out = proc.stdout.decode('utf8', 'replace')
    m = TLC_STATS.findall(out) or [(n, '0') for n in TLC_SIMULATED.findall(out)]
    stats = tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    ce = None
    if os.path.exists(dump):
        with open(dump, encoding='utf8') as f:
            ce = json.load(f)
    return proc.returncode, out, stats, ce


def tlc_error(module, out):
    lines = [l for l in out.splitlines() if not re.match(r'^(Semantic|Linting|Parsing|Progress)', l)]
    return CheckError(f'TLC failed on {module}:\n' + '\n'.join(lines)[-3000:])


def write_trace(job, runs, scratch):
    chars = set(job.chars)
    for r in runs:
        for ev in r:
            collect_chars(ev.get('w', []), chars)
            collect_chars(ev.get('ws', []), chars)
            collect_chars([list(q.values()) if isinstance(q, dict) else q for q in ev.get('qs', [])], chars)
            collect_chars(ev['res']['v'] if not isinstance(ev['res']['v'], str) and ev['res']['k'] != 'measures' else [], chars)
    uni = os.path.join(scratch, 'unicode.json')
    tables.write(uni, chars, job.encodings)
    path = os.path.join(scratch, 'trace.json')
    files = [{'aff': [], 'dic': []} if n + 1 in job.opaque else
             {'aff': list(f['aff'].encode('latin-1')), 'dic': list(f['dic'].encode('latin-1'))}
             for n, f in enumerate(job.files)]
    with open(path, 'w', encoding='ascii') as f:
        json.dump({'files': files, 'runs': runs, 'bundled': job.bundled}, f, separators=(',', ':'))
    return {'VP_UNICODE': uni, 'VP_TRACE': path}


def last_state(ce):
    """The last state of a counterexample dumped by TLC."""
    states = ce['counterexample']['state'] if 'counterexample' in ce else ce['state']
    return states[-1][1]


def readable(res):
    k, v = res.get('k'), res.get('v')
    if k == 'list':
        return [text(s) for s in v]
    if k == 'text':
        return text(v)
    if k == 'kinds':
        return [(text(s['text']), s['kind']) for s in v]
    return v if k in ('bool', 'scan', 'exc', 'differ', 'homonyms', 'flagged') else k


def describe(job, runs, index, state):
    """What differs, for people."""
    v = state['verdict']
    n, where = index[v['run'] - 1]
    ev = runs[v['run'] - 1][v['pos'] - 1]
    exp = v['exp']
    info = {'run': n + 1, 'event': where[v['pos'] - 1], 'note': job.notes[n], 'op': ev['op'], 'judge': ev['j']}
    if 'w' in ev:
        info['word'] = text(ev['w'])
    if isinstance(exp, dict):
        if ev['op'] == 'scan' and ev['res']['k'] == 'scan' and exp.get('k') == 'scan':
            bad = [i for i, (a, b) in enumerate(zip(ev['res']['v'], exp['v'])) if a != b]
            info['words'] = [{'word': text(ev['ws'][i]), 'library': ev['res']['v'][i], 'specification': exp['v'][i]}
                             for i in bad[:20]]
        elif exp.get('k') == 'differ':
            places = exp['v']
            got = ev['res']['v']
            shown = {p: got[p] if isinstance(p, str) else got[p - 1] if p <= len(got) else None for p in places}
            info['differ'] = {(text(ev['ws'][p - 1]) if 'ws' in ev else p): v for p, v in list(shown.items())[:8]}
        else:
            info['library'] = readable(ev['res'])
            info['specification'] = readable(exp)
    else:
        info['library'] = readable(ev['res'])
        info['reason'] = [text(x) if isinstance(x, list) and all(isinstance(c, int) for c in x) else x for x in exp]
    return info


def validate(job, scratch, limit=800, count=None, **library):
    """Runs a job in the library and validates the traces.  Returns (violation or None, stats)."""
    started = time.time()
    results = run_library(job, scratch, **library)
    lib_s = time.time() - started
    runs, index, missing = traces(job, results)
    if count:
        count(runs)
    env = write_trace(job, runs, scratch)
    code, out, (generated, distinct), ce = run_tlc('Trace', scratch, env, limit=limit)
    stats = {'traces': len(runs), 'events': sum(map(len, runs)), 'generated': generated, 'distinct': distinct,
             'library_s': round(lib_s, 1), 'total_s': round(time.time() - started, 1), 'results': results}
    if code == 0:
        if missing:
            raise CheckError(f'{missing} runs were not executed')
        return None, stats
    if code == 12 and ce is not None:
        state = last_state(ce)
        info = describe(job, runs, index, state)
        n = index[state['verdict']['run'] - 1][0]
        used = sorted({ev['file'] for ev in job.runs[n] if 'file' in ev} |
                      {it['file'] for ev in job.runs[n] for it in ev.get('items', []) if 'file' in it})
        info['files'] = {f: job.files[f - 1] for f in used if f not in job.opaque}
        info['requests'] = job.runs[n]
        return info, stats
    raise tlc_error('Trace', out)


def log(*args):
    print(*args, file=sys.stderr, flush=True)
