#!/usr/bin/env python3
"""Writes harness/C0{2,3,4}<group>.cpp from the cases in harness/cases.h (which cases each property runs, and their stated bounds)."""
import re, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')
src = open(os.path.join(H, 'cases.h')).read()
DESC = {'C02': 'the stream read at every non-empty subset of up to three earlier points, against one read only at the end',
        'C03': 'copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed',
        'C04': 'saved and loaded at up to three points, read before or not, both continuing'}
LDESC = {'C02': 'read at every non-empty subset of three earlier points', 'C03': 'copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing', 'C04': 'saved and loaded at two points, read before, after or not'}
SKIP = {}
for p in DESC:
    for g, body in re.findall(r'#ifdef GROUP_(\w+)\n(.*?)\n#endif', src, re.S):
        out = '#define GROUP_%s\n#include "%s.h"\n' % (g, p)
        for c in re.findall(r'^CASE\((\w+),', body, re.M):
            if c in SKIP.get(p, []):
                continue
            out += '// @bound l_%s a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: %s\nHARNESS(l_%s) { longrun<%s>(); }\n' % (c[2:], LDESC[p], c[2:], c)
            out += '// @bound h_%s %s\nHARNESS(h_%s) { run<%s>(); }\n' % (c[2:], DESC[p], c[2:], c)
        if os.path.exists(os.path.join(H, p + '.h')):
            open(os.path.join(H, '%s%s.cpp' % (p, g.lower())), 'w').write(out)
