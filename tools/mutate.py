#!/usr/bin/env python3
"""Mutation testing of the monitors, in scratch copies under /tmp: mutate.py LANE LANES COUNT SEED [FILE-PREFIX...]
For each mutant: build, run the related checks briefly until one reports a violation; if none does,
run the stable tests. Survivors of both go to /tmp/mut-LANE.log as SURVIVED."""
import sys, os, re, json, random, subprocess, shutil, time
lane, lanes, count, seed = map(int, sys.argv[1:5]); only = sys.argv[5:]
lab = f'/tmp/lab{lane}'
def sh(c, timeout=None, **k):
    try:
        r = subprocess.run(['bash', '-c', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, 'timeout'
def setup():
    sh(f'rm -rf {lab}; mkdir -p {lab}; cp -a /repo {lab}/repo; mkdir {lab}/verif; cd /verif; git archive HEAD | tar x -C {lab}/verif; cp -a /verif/target {lab}/verif/target; rm -rf {lab}/verif/target/asan {lab}/verif/target/plain; rm -rf {lab}/verif/seeded')
    sh(f"cd {lab}/verif; sed -i 's#/repo/#{lab}/repo/#' harness/Cargo.toml jumps/Cargo.toml; sed -i 's#/verif#{lab}/verif#' env.sh; grep -rl '/verif' --include=*.rs . | xargs -r sed -i 's#\"/verif#\"{lab}/verif#'; sed -i 's#\\[ \"$id\" = C21 \\] || \\[ \"$id\" = C06 \\]#false#' check.sh")
    for n in ('build.sh', 'test.sh'):
        sh(f"sed 's#/repo#{lab}/repo#g; s#/opt/vp/env.sh#{lab}/env.sh#g' /opt/vp/{n} > {lab}/{n}")
    sh(f"sed 's#/repo#{lab}/repo#g' /opt/vp/env.sh > {lab}/env.sh")
MAP = [
    ('victor/src/dom/xml', 'C10 C27'), ('victor/src/dom', 'C09 C27 C10 C13 C14'),
    ('victor/src/style/selectors', 'C13 C12 C11'), ('victor/src/style', 'C20 C11 C12 C18 C15 C13 C09'),
    ('victor/src/layout', 'C14 C15 C16 C17 C18'), ('victor/src/geom', 'C15 C16 C17 C18'), ('victor/src/paint', 'C18 C17'),
    ('victor/src/pdf', 'C02 C03 C04 C25 C23'), ('victor/src/fonts', 'C05 C06 C04 C07'), ('victor/src/text_plain', 'C08'),
    ('victor/src/text', 'C07 C08'), ('victor/src/tagged', 'C26'), ('victor/src/prim', 'C03 C08 C15'), ('lester', 'C22 C24 C23'),
    ('proc-macros', 'C20 C13'), ('', 'C02 C18 C08'),
]
SUB = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'if !', 'if '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\binline_start\b', 'inline_end'), (r'\binline_end\b', 'inline_start'), (r'\bblock_start\b', 'block_end'), (r'\bblock_end\b', 'block_start'),
    (r'\.inline\b', '.block'), (r'\.block\b', '.inline'), (r'first_child', 'last_child'), (r'last_child', 'first_child'),
    (r'next_sibling', 'previous_sibling'), (r'previous_sibling', 'next_sibling'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
    (r'\bwidth\b', 'height'), (r'\bheight\b', 'width'), (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\bpadding\b', 'margin'), (r'\bborder\b', 'padding'),
    (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'\b([1-9]\d*)\b', lambda m: str(int(m.group(1)) - 1)),
    (r'\+= ', '-= '), (r'-= ', '+= '), (r'\.rev\(\)', ''), (r'\bSome\((\w+)\) => ', r'Some(\1) if false => '), (r'Length::zero\(\)', 'Length { px: 1.0 }'),
    (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bif (.*) \{$', r'if false && (\1) {'), (r'\bif (?!let)(.*) \{$', r'if true || (\1) {'),
    (r'\.all\(', '.any('), (r'\.any\(', '.all('), (r'0\.\.', '1..'), (r'\.\.=', '..'), (r'std::mem::take\((.*)\)', r'(*\1).clone()'), (r'\.saturating_sub\(', '.saturating_add('),
    (r'BlockLevel|InlineLevel', lambda m: m.group(0)), (r'"([^"]+)" => ', r'"\1x" => '), (r'top', 'bottom'), (r'left', 'right'), (r'bottom', 'top'), (r'right', 'left'),
]
def mutants():
    out = []
    files = sh("git -C /repo ls-files 'victor/src/*.rs' 'lester/src/*.rs' 'proc-macros/src/*.rs'")[1].split()
    for f in files:
        if only and not any(f.startswith(o) for o in only): continue
        if f.endswith('_ffi.rs'): continue
        lines = open(f'/repo/{f}').read().split('\n')
        depth_test = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]') or s == '#[test]': break
            if not s or s.startswith(('//', 'use ', 'pub use', '#', 'assert', 'debug_assert', 'mod ', 'pub mod', 'extern')): continue
            code = l.split('//')[0]
            for n, (a, b) in enumerate(SUB):
                ms = list(re.finditer(a, code))
                for m in ms[:3]:
                    if m.group(0).startswith('"') is False and code[:m.start()].count('"') % 2: continue
                    new = code[:m.start()] + (b(m) if callable(b) else m.expand(b)) + code[m.end():]
                    if new != code: out.append((f, i, new))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'type ', 'const ', 'break', 'continue')) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and lines[i-1].rstrip().endswith((';', '{', '}')):
                out.append((f, i, ''))
    return out
def checks(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
setup()
all_ = sorted(set(mutants()))
rng = random.Random(seed); rng.shuffle(all_)
todo = all_[:count][lane::lanes]
log = open(f'/tmp/mut-{lane}.log', 'a')
def say(*a):
    print(*a, file=log, flush=True)
say(f'# {len(all_)} mutants, running {len(todo)}, seed {seed}')
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
stats = {}
for f, i, new in todo:
    src = open(f'/repo/{f}').read(); lines = src.split('\n'); old = lines[i]; lines[i] = new
    path = f'{lab}/repo/{f}'
    open(path, 'w').write('\n'.join(lines))
    what = f'{f}:{i+1} | {old.strip()} | {new.strip()}'
    c, o = sh(f'cd {lab}/verif; . ./env.sh; . ./build.sh; build main /dev/null', timeout=400)
    r = None
    if c: r = 'nocompile'
    else:
        for ck in checks(f):
            c, o = sh(f'cd {lab}/verif; VMON_SECS=7 VERIF_SEED=1 VERIF_TIER=quick nice ./check.sh {ck}', timeout=300)
            if c == 1 and 'VIOLATION' in o: r = 'killed ' + ck; break
            if c not in (0, 1): say(f'odd {ck} rc={c} ' + o[-150:].replace('\n', ' '), what)
        if r is None:
            c, o = sh(f'bash {lab}/build.sh && bash {lab}/test.sh {lab}/out.json', timeout=600)
            if c and 'could not compile' in o: r = 'nocompile-tests'
            else:
                try:
                    got = json.load(open(f'{lab}/out.json'))['passed']
                    r = 'killed tests' if [x for x in base if x not in got] else 'SURVIVED'
                except Exception as e: r = 'killed tests? ' + str(e)
    open(path, 'w').write(src)
    stats[r.split()[0]] = stats.get(r.split()[0], 0) + 1
    say(r, '||', what)
say('#', stats)
shutil.rmtree(lab)
