"""Collects the repository's own test programs into corpus/corpus.json (committed, so checks need no test files)."""
import json, os, re, sys
root = '/repo/Tests'
out = []
for d, _, fs in sorted(os.walk(root)):
    asm = [f for f in fs if f.endswith('.asm')]
    base = os.path.basename(d)
    main = base + '.asm'
    if main not in fs:
        continue
    files = {}
    for dd, _, ff in sorted(os.walk(d)):
        for f in sorted(ff):
            p = os.path.join(dd, f)
            rel = os.path.relpath(p, d).encode('utf-8').decode('latin-1')
            if f.startswith('expected') or f.endswith('.sh') or f == 'commandLine.txt':
                continue
            files[rel] = open(p, 'rb').read().decode('latin-1')
    args = ['armips', main]
    if 'commandLine.txt' in fs:
        args = ['armips'] + open(os.path.join(d, 'commandLine.txt')).read().split()[1:]
    outs = set()
    for n, t in files.items():
        if n.endswith('.asm'):
            for m in re.finditer(r'(?i)\.(create|createfile|open|openfile)\s+"([^"]+)"(?:\s*,\s*"([^"]+)")?', t):
                outs.add(m.group(3) or m.group(2))
    out.append({'name': os.path.relpath(d, root), 'files': files, 'args': args, 'outputs': sorted(outs), 'inputs': sorted(f for f in files if f not in outs)})
json.dump(out, open('/verif/corpus/corpus.json', 'w'), indent=0)
print(len(out), os.path.getsize('/verif/corpus/corpus.json'))
for o in out: print(o['name'], o['args'][1:], o['outputs'], len(o['files']))
