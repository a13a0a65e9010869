"""Rewrites the generated tables of DESIGN.md (run by hand, not by any check)."""
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace(text, name, lines):
    return re.sub(
        f'(<!-- {name} -->\n).*?(<!-- end {name} -->)',
        lambda m: m[1] + '\n'.join(lines) + '\n' + m[2], text, flags=re.S)


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path) as fp:
        text = fp.read()
    with open(os.path.join(ROOT, 'tools', 'seeded.json')) as fp:
        missed = json.load(fp)
    rows = ['| change | caught by | needs | breaks | at first |', '|---|---|---|---|---|']
    bugs = []
    for name in os.listdir(os.path.join(ROOT, 'seeded')):
        with open(os.path.join(ROOT, 'seeded', name, 'meta.json')) as fp:
            bugs.append((json.load(fp), name))
    for meta, name in sorted(bugs, key=lambda b: (b[0]['property'], b[1])):
        rows.append('| {} | {} | {} | {} | {} |'.format(
            name, meta['property'], meta['needs'], meta['what_it_breaks'],
            'missed: ' + missed[name] if name in missed else 'caught'))
    text = replace(text, 'seeded', rows)
    fixes = []
    with open(os.path.join(ROOT, 'known_findings.txt')) as fp:
        for line in fp:
            match = re.match(r'fixed: property=(\w+) (\w+) (.*)', line)
            if match:
                fixes.append('| {} | {} | {} |'.format(*match.groups()))
    text = replace(text, 'fixes', ['| property | commit | fix |', '|---|---|---|', *sorted(fixes)])
    with open(path, 'w') as fp:
        fp.write(text)


main()
