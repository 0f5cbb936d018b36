"""own_lines(dir): what stops a change in `dir` from counting as one to the original repository's lines ([] if it counts)."""
import subprocess, re
BASE = '7b2335a'
def own_lines(d):
    g = lambda *a: subprocess.run(['git', *a], cwd=d, capture_output=True, text=True, errors='replace').stdout
    base = g('rev-parse', BASE).strip()
    bad = []
    f = None
    for l in g('diff', '-U0', '--no-color').splitlines():
        if l.startswith('--- a/'):
            f = l[6:].rstrip('\t\r')
            who = [x[1:].split()[0] if x.startswith('^') else x.split()[0] for x in g('blame', '-s', '--abbrev=39', 'HEAD', '--', f).splitlines()]
            orig = [base.startswith(w) for w in who]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a, n = int(m[1]), 1 if m[2] is None else int(m[2])
            if n:
                ok = any(orig[a - 1:a - 1 + n])
            else:
                ok = (a == 0 or orig[a - 1]) and (a >= len(orig) or orig[a])
            if ok:
                return []
            bad.append(f'{f}:{a}')
    return bad
