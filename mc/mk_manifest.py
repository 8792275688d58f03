"""writes /verif/MANIFEST.json from properties.jsonl and the checks present"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
have = {}
for f in sorted(os.listdir(HERE)):
    m = re.fullmatch(r'(c\d\d)_\w+\.py', f)
    if m:
        have[m.group(1).upper()] = open(os.path.join(HERE, f)).read()
TECH = {
    'C01': 'exhaustive enumeration of operand pairs on the real code against an integer reference model',
    'C02': 'exhaustive enumeration of values, indices and slices, and of operation chains, against a bit-list model',
    'C03': 'bounded exhaustive enumeration of operators and programs; terms evaluated under every assignment against the model',
    'C04': 'bounded exhaustive enumeration of operators and programs; terms evaluated under every assignment against the model',
    'C05': 'exhaustive enumeration of operands, carries and word splits against integer addition',
    'C06': 'exhaustive enumeration of operators, operand orders, widths and foreign operands',
    'C07': 'explicit-state search over operation/mutation histories against a value-semantics model',
    'C08': 'exhaustive enumeration of selects, branch shapes and operators on results against the selected branch',
    'C09': 'explicit-state search over type creation/lookup/collection histories against a lattice model',
    'C10': 'explicit-state search over type definition/lookup/collection histories against a structural model',
    'C11': 'explicit-state search over read/write histories against a record model',
    'C12': 'explicit-state search over assignment histories against a one-member model',
    'C13': 'exhaustive enumeration of types up to a size against a set model',
    'C14': 'exhaustive enumeration of types and rebindings against a term-substitution model',
    'C15': 'exhaustive enumeration of modifier stacks, type trees and creation orders against a tree model',
    'C16': 'exhaustive enumeration of operands of small formats on the real code against an exact rational model',
    'C17': 'exhaustive enumeration of bit patterns and pairs against an exact rational model',
    'C18': 'exhaustive enumeration of operation interleavings over several formats and contexts',
    'C19': 'explicit-state search over creation/deletion histories against a name-set model',
    'C20': 'exhaustive enumeration of formula trees under every assignment',
    'C21': 'exhaustive enumeration of integer expressions under every assignment',
    'C22': 'exhaustive enumeration of operations, operand orders and type pairs, comparing terms',
    'C23': 'exhaustive enumeration of types, values and overridden method subsets against a traversal model',
    'C24': 'explicit-state search over Enum definition histories against a table model',
    'C25': 'exhaustive enumeration of expressions, substitutions and assignments',
    'C27': 'exhaustive exploration of every outcome of every random draw, with exact probabilities',
    'C26': 'explicit-state search over mapping constructions and property operations against a dict/slot model',
}
NOTE = ('Every case inside the stated bounds is executed on the code in /repo and compared with a small reference '
        'model; nothing is sampled. Behaviour outside the bounds is not covered. Trusts the reference model, '
        'CPython and the libraries under the code (gmpy2, pysmt, z3).')
checks = [dict(property=p['id'], quick_cmd=f'./check {p["id"]} --tier quick',
               thorough_cmd=f'./check {p["id"]} --tier thorough',
               technique='model checking: ' + TECH[p['id']], level='model_checking', level_note=NOTE)
          for p in props if p['id'] in have]
na = [dict(property=p['id'], reason='its check is not built yet') for p in props if p['id'] not in have]
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B mc/bvref.py', checks=checks, not_applicable=na,
               notes='Hooks: none; every check drives the public API of /repo. Known findings: known_findings.json.'),
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
