#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'), encoding='utf8')]
NOTE = ('Every answer of the library on the generated scenarios is compared by TLC with the TLA+ specification{how}. '
        'Holds for the explored dictionaries, words and histories; trusts TLC, the character and encoding tables taken from '
        'Python, and the reading of the Hunspell rules written down in spec/.')
HOW = {'C09': ' and with the answers for other notations of the same content',
       'C10': ' of which files an open finds, and with the answers of the same files opened by path',
       'C11': ' of soundness of a suggestion (not of the whole list)',
       'C22': ' of the set of readings of a word',
       'C23': ' of the checker with its options',
       'C24': ' of the entries of a word list',
       'C25': ' of the settings and tables of an affix file',
       'C26': ' of the kinds of suggestions',
       'C27': ' of the casing of a word',
       'C28': ' of the candidates tried for a word',
       'C29': ' and, for a pair of dictionaries, with each other',
       'C31': ' and, for a pair of dictionaries, with each other',
       'C32': ' and, for a pair of dictionaries, with each other',
       'C33': ' of measures of similarity and phonetic codes',
       'C34': ' of readers as a state machine',
       'C35': ' of conversions, rules, patterns and affixed forms',
       'C30': ' of the similar words before limits',
       'C19': ' of sessions; answers of a process of its own are the reference for every history'}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i}', evidence_file=f'evidence/{i}.json',
                       technique='TLA+ specification; laws of the property checked on it by TLC over menus of dictionaries and the answers replayed '
                                 'in the real library; trace validation of generated scenarios of the real library against it',
                       level='model_checking', level_note=NOTE.format(how=HOW.get(i, ''))))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: only the public and documented interface is used. Design and bounds: DESIGN.md. Findings: known-findings.txt.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf8'), indent=1)
