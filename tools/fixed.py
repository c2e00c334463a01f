"""Record a fix commit: tools/fixed.py PROPERTY COMMIT what failed"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, c, w = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
with open(os.path.join(V, 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(dict(id='F-' + c, property=p, status='fixed', commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w))) + '\n')
