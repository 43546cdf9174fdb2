#!/usr/bin/env python3
"""Lists /repo's fix: commits in known_findings.tsv (run after adding one; the property comes from the table)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [('base64', 'P08'), ('url_decode', 'P08'), ('xml_encode', 'P08'), ('subnormal', 'P09'), ('float_to_bytes', 'P09'), ('quadruple', 'P09'),
     ('chunked message larger', 'P04'), ('header values without', 'P04'), ('chunk footers', 'P04'), ('Content-Length accepted', 'P05'),
     ('request line ending', 'P05'), ('HTTP version numbers', 'P05'), ('multipart', 'P07'), ('changing the resource', 'P10'), ('assigning a message', 'P10'),
     ('close connection option', 'P10'), ('parse_uri', 'P22'), ('password hash', 'P12'), ('SPDY', 'P11'), ('scheduler', 'P17'), ('plug-in', 'P18'), ('plugin_instance', 'P18')]
exec(open(V + '/tools/fixed_extra.py').read()) if os.path.exists(V + '/tools/fixed_extra.py') else None
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
keep = [l for l in open(V + '/known_findings.tsv').read().splitlines() if not l.startswith('fixed:')]
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    ps = [p for k, p in T if k in s]; assert ps, s
    out.append('fixed: property=%s %s %s' % (ps[-1], h, s[5:]))
open(V + '/known_findings.tsv', 'w').write('\n'.join(keep + out) + '\n')
print(len(out), 'fixed')
