"""debug: python3-vt engine/nat.py pkg seconds [VC...]: run contracts natively with all labels"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from check import *
tmp = tempfile.mkdtemp(prefix='verif-nat-')
d, secs = sys.argv[1], float(sys.argv[2])
names = sys.argv[3:]
if not names:
    for f in contract_files()[d]:
        names += re.findall(r'^func (VC_\w+)\(', open(f).read(), re.M)
nat = Native(REPO, tmp)
r = nat.run(d, dict(vcs=names, labels=['*'], seed=SEED, seconds=secs, given=[]), n=8)
if r is None:
    print(nat.err)
else:
    print(r['runs'], r['skips'], r['crashed'])
    for n in names:
        print('  ', n, r['valid'].get(n, 0))
    if r['hit']:
        print('HIT', r['hit']['vc'], r['hit']['label'], r['hit']['detail'], [s[:1500] for s in r['hit']['shown']])
shutil.rmtree(tmp, ignore_errors=True)
