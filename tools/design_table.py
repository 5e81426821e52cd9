'''Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.'''
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEADER = '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n'


def main():
    seeded = os.path.join(VERIF, 'seeded')
    rows = []
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, 'meta.json')) as handle:
            meta = json.load(handle)
        rows.append('| %s | %s | %s | %s |\n' % (name, meta['property'], meta['what_it_breaks'], meta['needs']))
    path = os.path.join(VERIF, 'DESIGN.md')
    with open(path) as handle:
        text = handle.read()
    before, _, after = text.partition(HEADER)
    rest = after.partition('\n\n')[2]
    with open(path, 'w') as handle:
        handle.write(before + HEADER + ''.join(rows) + ('\n' + rest if rest else ''))


if __name__ == '__main__':
    main()
