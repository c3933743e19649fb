import sys, time, signal, traceback
sys.path.insert(0, '/verif/engine')
import run, loops
from terms import *
class TO(Exception): pass
def al(*a): raise TO()
signal.signal(signal.SIGALRM, al)
p = run.Program(['/tmp/w/dump2/numopt.json'])
pat = sys.argv[1] if len(sys.argv) > 1 else ''
um = {}
for k, f in p.fns.items():
    if not f.get('body') or pat not in k or '{closure' in k: continue
    if 'tests::' in k: continue
    t = time.time()
    signal.alarm(40)
    try:
        I = run.analyse(p, k)
        st = 'ok'
        for u in getattr(I, 'unmodelled', ()): um.setdefault(u, []).append(k)
        uk = sorted(set((w, s) for w, s, _ in I.unk))
    except TO:
        st, uk = 'TIMEOUT', []
    except Exception as ex:
        st = 'EXC %r' % ex
        uk = [traceback.format_exc().strip().split('\n')[-4:]]
    signal.alarm(0)
    dt = time.time() - t
    if st != 'ok' or uk or dt > 3:
        print('%-7s %5.1fs %s %s' % (st[:60], dt, k, [str(x)[:160] for x in uk[:6]]), flush=True)
print(um)
print(len(TABLE))
