"""debug driver: run1.py module.ll entry"""
import sys, time
sys.path.insert(0, '/verif/zkv')
sys.setrecursionlimit(100000)
import ir, engine, models
m = ir.Module(sys.argv[1])
E = engine.Engine(m, dict(ctors=m.ctors()))
models.install(E)
t = time.time()
try:
    E.run(sys.argv[2], time.time() + float(sys.argv[3]) if len(sys.argv)>3 else time.time()+600)
except TimeoutError:
    print('TIMEOUT')
print('time %.2f' % (time.time() - t))
print(E.stats)
print('obl', E.obl)
print('cov', E.covers)
for f in E.failures: print('FAIL', f)
from collections import Counter
for u,n in Counter(E.undecided).most_common(20): print('UND', n, u)
print(E.bounded_notes)
