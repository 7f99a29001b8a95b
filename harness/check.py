"""Decides one property.

    check.py ID              exit 0: held; 1: VIOLATION line; 2: error of the check
    check.py --replay FILE   executes a recorded violation again

VERIF_SEED gives every random choice, VERIF_TIER is quick or thorough.
"""

import json
import os
import random
import sys
import time
import traceback

import analyses
import core
import fixtures
import lookups
import menus
import model
import pairs
import reading
import sessions
import suggestions
import tabled

EVIDENCE = os.path.join(core.VERIF, 'evidence')
FINDINGS = os.path.join(core.VERIF, 'known-findings.txt')

# property -> (scenarios of a quick run, scenarios of one round of a thorough run)
PLAN = {
    'C01': (lookups.c01, 2000), 'C02': (lookups.c02, 2000), 'C03': (lookups.c03, 2000), 'C04': (lookups.c04, 2000),
    'C05': (lookups.c05, 2000), 'C06': (lookups.c06, 2000), 'C07': (lookups.c07, 1500), 'C08': (lookups.c08, 2000),
    'C09': (sessions.c09, 900), 'C10': (sessions.c10, 700),
    'C11': (suggestions.c11, 1800), 'C12': (suggestions.c12, 1800), 'C13': (suggestions.c13, 1800),
    'C14': (suggestions.c14, 1800), 'C15': (suggestions.c15, 1800), 'C16': (suggestions.c16, 1800),
    'C17': (suggestions.c17, 1800), 'C18': (suggestions.c18, 1800),
    'C19': (sessions.c19, 300), 'C20': (sessions.c20, 1500), 'C21': (suggestions.c21, 1800),
    'C22': (analyses.c22, 1100), 'C23': (analyses.c23, 1000), 'C24': (analyses.c24, 2000), 'C25': (analyses.c25, 2000),
    'C26': (analyses.c26, 1500), 'C27': (analyses.c27, 800), 'C28': (analyses.c28, 1500), 'C29': (analyses.c29, 1500),
    'C30': (analyses.c30, 1500), 'C31': (pairs.c31, 5000), 'C32': (pairs.c32, 11000),
    'C33': (reading.c33, 1500), 'C34': (reading.c34, 6000), 'C35': (tabled.c35, 3000),
}
# property -> behaviours generated by TLC, added to the scenarios
MODELS = {'C10': sessions.c10_model, 'C19': sessions.c19_model, 'C34': reading.c34_model}
THOROUGH_S = 600


def replay_job(rec):
    job = core.Job()
    job.files = rec['files']
    job.runs = rec['runs']
    job.notes = [''] * len(job.runs)
    job.encodings = set(rec['encodings'])
    job.chars = set(rec['chars'])
    job.bundled = rec['bundled']
    job.opaque = set(rec['opaque'])
    return job


def reduced(job, *numbers):
    """A record with some runs of the job, which are to be executed in one process if there are many."""
    files = {b['file'] for b in job.bundled}
    for number in numbers:
        for ev in job.runs[number - 1]:
            files.update(ev[k] for k in ('file', 'content') if k in ev)
            files.update(it['file'] for it in ev.get('items', []) if 'file' in it)
    return {'files': [f if n + 1 in files else {'aff': '', 'dic': ''} for n, f in enumerate(job.files[:max(files)])],
            'runs': [job.runs[number - 1] for number in numbers], 'hashseed': (numbers[0] - 1) % core.PROCS, 'encodings': sorted(job.encodings),
            'chars': sorted(job.chars), 'bundled': job.bundled, 'opaque': sorted(n for n in job.opaque)}


def again(record, tries):
    """Executes a record by itself; the violation, or None."""
    for _k in range(tries):
        with core.Scratch() as scratch:
            violation, _stats = core.validate(replay_job(record), scratch, procs=1, hashseed=record['hashseed'])
        if violation:
            return violation
    return None


def confirm(job, violation):
    """Executes a violating run alone; if that is fine, after what its process had executed before, more and more of it."""
    number = violation['run']
    threads = any(ev['op'] == 'threads' for ev in job.runs[number - 1])
    record = reduced(job, number)
    confirmed = again(record, 5 if threads else 2)
    if confirmed or (threads and violation.get('library') not in ('timeout', 'crash')):
        return confirmed or violation, record
    earlier = list(range(number, 0, -core.PROCS))
    length = 2
    while violation.get('library') not in ('timeout', 'crash') and len(earlier) > 1:
        longer = reduced(job, *reversed(earlier[:length]))
        confirmed = again(longer, 1)
        if confirmed:
            return confirmed, longer
        if length >= len(earlier):
            break
        length *= 4
    raise core.CheckError('a violation was not reproduced: '
                          + json.dumps({k: v for k, v in violation.items() if k not in ('files', 'requests')}))


def sample(job, results, rng, count=3):
    res = []
    for n in rng.sample(range(len(job.runs)), min(count, len(job.runs))):
        evs = []
        for ev, r in list(zip(job.runs[n], results[n] or []))[:6]:
            e = {'op': ev['op']}
            if 'w' in ev:
                e['word'] = core.text(ev['w'])
            if 'ws' in ev:
                e['words'] = {core.text(w): len(v) if r['k'] == 'forms' else v
                              for w, v in list(zip(ev['ws'], r['v']))[:12]} if r['k'] in ('scan', 'forms', 'homonyms', 'casing') else len(ev['ws'])
            if 'path' in ev:
                e['path'] = ev['path']
            if r['k'] not in ('scan', 'forms', 'homonyms', 'casing', 'edits', 'measures', 'rules', 'patterns', 'made'):
                e['library'] = core.readable(r)
            evs.append(e)
        files = [ev['file'] for ev in job.runs[n] if 'file' in ev][:1]
        res.append({'note': job.notes[n], 'events': json.loads(json.dumps(evs).encode('utf8', 'replace')),
                    'aff': job.files[files[0] - 1]['aff'][:800] if files else '',
                    'dic': job.files[files[0] - 1]['dic'][:400] if files else ''})
    return res


# kinds of the answers of the objects behind a dictionary -> their counts
COUNTED = {'forms': 'words_analysed', 'entries': 'entries_shown', 'homonyms': 'homonym_requests', 'flagged': 'flag_requests',
           'options': 'option_sets_shown', 'kinds': 'explained_suggestions', 'casing': 'words_cased',
           'edits': 'candidates', 'near': 'similarity_requests', 'measures': 'pairs_measured', 'codes': 'words_coded',
           'convs': 'texts_converted', 'rules': 'flag_sequences_matched', 'patterns': 'pairs_matched', 'made': 'entries_affixed',
           'line': 'lines_read', 'lines': 'lines_read_at_once'}


def count_answers(runs, total):
    for evs in runs:
        for ev in evs:
            k, v = ev['res']['k'], ev['res']['v']
            if k == 'scan':
                total['words_looked_up'] += len(v)
                total['words_accepted'] += sum(v)
            elif k == 'bool':
                total['words_looked_up'] += 1
                total['words_accepted'] += v
            elif k == 'list':
                total['suggest_requests'] += 1
                total['suggest_nonempty'] += bool(v)
                total['suggestions'] += len(v)
            elif k in ('text', 'end'):
                total['iterator_steps'] += 1
            elif k in COUNTED:
                total[COUNTED[k]] += 1 if k in ('options', 'near', 'line') else len(v)
                if k == 'forms':
                    total['readings'] += sum(map(len, v))
            elif k == 'absent':
                total['not_available'] += 1


def note_models(cov, stats):
    for st in stats:
        cov['states'] += st['states']
        cov['transitions'] += st['transitions']
        cov.setdefault('models', []).append(st)
        core.log('  model: ' + ', '.join(f'{k} {v}' for k, v in st.items()))


def check_menus(prop, deep, cov, total):
    for menu in menus.menus(prop, deep):
        with core.Scratch() as scratch:
            stats, job, number = model.check_menu(menu, scratch)
        violation = None
        note_models(cov, [stats])
        cov['spec_answers_replayed'] = cov.get('spec_answers_replayed', 0) + stats['answers']
        if not number and prop in analyses.ASKED:
            job = core.Job()
            for _pick, aff, dic in model.contents(menu):
                job.file(aff, dic)
                job.run([{'op': 'open', 'slot': 1, 'file': len(job.files)}] + analyses.ASKED[prop](menu), menu['name'])
            job.chars.update(ord(c) for w in menu['words'] + menu['sugs'] for c in w)
            with core.Scratch() as scratch:
                violation, stats = core.validate(job, scratch, count=lambda runs: count_answers(runs, total))
            cov['states'] += stats['distinct']
            cov['transitions'] += stats['generated'] - stats['traces']
            cov['traces_validated_against_impl'] += stats['traces']
            number = violation and violation['run']
        if number:
            violation, record = confirm(job, violation or {'run': number, 'menu': menu['name']})
            return {**violation, 'note': job.notes[number - 1]}, record
    return None


def check(prop):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    started = time.time()
    generator, quick_n = PLAN[prop]
    total = dict.fromkeys(['words_looked_up', 'words_accepted', 'suggest_requests', 'suggest_nonempty', 'suggestions',
                           'iterator_steps', *COUNTED.values(), 'readings', 'not_available'], 0)
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'dictionaries': 0, 'rounds': 0, 'samples': []}
    found = None
    rounds = 0
    while not found:
        rounds += 1
        rng = random.Random(f'{prop}/{seed}/{rounds}')
        job = core.Job()
        generator(job, rng, quick_n)
        fixtures.add(job, prop, rng)
        if rounds == 1 and prop in MODELS:
            with core.Scratch() as scratch:
                note_models(cov, MODELS[prop](job, rng, scratch, tier == 'thorough'))
        with core.Scratch() as scratch:
            violation, stats = core.validate(job, scratch, count=lambda runs: count_answers(runs, total))
        cov['states'] += stats['distinct']
        cov['transitions'] += stats['generated'] - stats['traces']
        cov['traces_validated_against_impl'] += stats['traces']
        cov['dictionaries'] += len(job.files)
        cov['rounds'] = rounds
        if not cov['samples']:
            cov['samples'] = sample(job, stats['results'], rng)
        core.log(f"{prop}: round {rounds}: {stats['traces']} traces, {stats['events']} events, library {stats['library_s']} s, "
                 f"total {stats['total_s']} s")
        if violation:
            confirmed, record = confirm(job, violation)
            found = ({**confirmed, 'run': violation['run']}, record)
        if rounds == 1 and not found:
            found = check_menus(prop, tier == 'thorough', cov, total)
        if tier != 'thorough' or time.time() - started > THOROUGH_S:
            break
    cov.update({k: v for k, v in total.items() if v})
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                'wall_s': round(time.time() - started, 1), 'violations': 1 if found else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w', encoding='utf8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    if not found:
        return 0
    violation, record = found
    path = os.path.join(EVIDENCE, f'{prop}.replay.json')
    with open(path, 'w', encoding='utf8') as f:
        json.dump({'property': prop, 'seed': seed, 'what': violation, 'job': record}, f)
    show(violation)
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1


def show(violation):
    for k, v in violation.items():
        if k not in ('files', 'requests'):
            core.log(f'  {k}: {v!r}'[:2000])
    for n, f in list(violation['files'].items())[:3]:
        core.log(f'  file {n}:\n' + printable(f['aff'])[:1500] + '\n  --\n' + printable(f['dic'])[:800])


def printable(content):
    content = content.encode('latin-1').decode('utf8', 'replace')
    return ''.join(c if c == '\n' or c.isprintable() else ascii(c)[1:-1] for c in content)


def replay(path):
    with open(path, encoding='utf8') as f:
        rec = json.load(f)
    violation = again(rec['job'], 3)
    if not violation:
        print('not reproduced')
        return 0
    show(violation)
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def known_findings(prop):
    """Prints the listed findings of a property (none suppresses anything by itself)."""
    try:
        with open(FINDINGS, encoding='utf8') as f:
            for line in f:
                if line.startswith(f'known: property={prop} '):
                    print('KNOWN-FINDING: ' + line[len('known: '):].strip())
    except FileNotFoundError:
        pass


def main(args):
    sys.stderr.reconfigure(errors='backslashreplace')
    try:
        if args[0] == '--replay':
            return replay(args[1])
        known_findings(args[0])
        return check(args[0])
    except core.CheckError as e:
        core.log('check error:', e)
    except Exception:       # pylint: disable=broad-except
        traceback.print_exc()
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
