"""The table of planted bugs in DESIGN.md: /opt/venv/bin/python tools/seeded.py (rewrites it)"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the check did not do when the bug was planted, and what was added
MISSED = {
    'C01-while-literal': 'missed: every kind of condition in every construct, empty bodies, loops that change what they walk ("conditions")',
    'C02-trailing-comma': 'caught by one case: every short token sequence inside of a call or parentheses, every edit of one token',
    'C08-include-fixup': 'missed: include statements in hand-built models, executed twice',
    'C09-check-interval': 'missed: limits up to 16384 ("long")',
    'C03-callee-first': 'missed: arguments that rebind the name of the called function',
    'C07-label-wrap': 'missed: scripts of hundreds of blocks ("many")',
    'C14-parse-cache': 'missed: the value of a text is changed and the text read again ("again"; the results of all functions also in C08)',
    'C18-dup-arg': 'missed: functions with up to six arguments',
    'C19-calc-order': 'missed: row expressions that read no field but change from row to row ("row effects")',
    'C19-stddev-two': 'missed: statistics of values far from zero and near each other ("offset")',
    'C03-today': 'missed: the clock functions were unknown values; now bounded by the clock before and after ("clock")',
    'C11-sort-fast': 'missed: universes of one to three types',
    'C12-size-range': 'missed: sizes up to 70000 ("sizes")',
    'C17-empty-prefix': 'missed: the empty prefix and the empty base',
    'C17-empty-text': 'missed: empty included files',
}


def main():
    rows = ['| planted bug | check | what it breaks | at first |', '|---|---|---|---|']
    for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        with open(os.path.join(ROOT, 'seeded', name, 'meta.json'), encoding='utf-8') as fh:
            meta = json.load(fh)
        rows.append(f"| {name} | {meta['property']} | {meta['what_it_breaks'].replace('|', '/')} | {MISSED.get(name, 'caught')} |")
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path, encoding='utf-8') as fh:
        text = fh.read()
    table = '<!-- planted bugs -->\n' + '\n'.join(rows) + '\n<!-- end -->'
    text = re.sub(r'@@SEEDED@@|<!-- planted bugs -->.*?<!-- end -->', lambda _: table, text, flags=re.S)
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write(text)


main()
