"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
MISSED = 'seeded_missed.json'


def main():
    rows = ['| bug | check | what it breaks | needs |', '|---|---|---|---|']
    d = os.path.join(ROOT, 'seeded')
    for i in sorted(os.listdir(d)):
        with open(os.path.join(d, i, 'meta.json')) as f:
            m = json.load(f)
        rows.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} | '
                    f'{m["needs"]} |')
    p = os.path.join(ROOT, 'DESIGN.md')
    with open(p) as f:
        s = f.read()
    a = '<!-- seeded -->'
    if a not in s:
        s = s.replace('SEEDED_TABLE', f'{a}\n{a}')
    head, _, tail = s.split(a)
    with open(p, 'w') as f:
        f.write(head + a + '\n' + '\n'.join(rows) + '\n' + a + tail)


main()
