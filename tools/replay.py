#!/usr/bin/env python3
"""replay.py FILE [-D]: run a recorded input vector against the native build; -D rebuilds the harness with -DDBG."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('VERIF_BUILD', V + '/.build')
r = json.load(open(sys.argv[1]))
src = r['property'].lower() + '.c'
exe = os.path.join(B, r['property'].lower() + '.exe')
d = tempfile.mkdtemp()
if '-D' in sys.argv:
    o = os.path.join(d, 'h.o')
    R = open(V + '/check.py').read()
    subprocess.check_call(['gcc', '-g', '-fsanitize=address', '-w', '-DDBG', '-DHAVE_CONFIG_H', '-D__NO_CTYPE', '-I' + B + '/src', '-I' + V + '/harness', '-c', V + '/harness/' + src, '-o', o])
    nats = [os.path.join(B, 'nat', f) for f in os.listdir(os.path.join(B, 'nat')) if f.endswith('.o') and not (f[0] == 'c' and f[1:3].isdigit())]
    exe = os.path.join(d, 'x')
    subprocess.check_call(['gcc', '-fsanitize=address', '-rdynamic', o] + nats + ['-o', exe, '-ldl'])
pi, po = d + '/i', d + '/o'
open(pi, 'w').write(''.join('%s %d %s\n' % (n, len(h) // 2, ' '.join(h[k:k + 2] for k in range(0, len(h), 2))) for n, h in r['inputs']))
p = subprocess.run([exe, pi, po, r['entry']] + ['%s=%s' % kv for kv in r['args'].items()])
print('exit', p.returncode)
