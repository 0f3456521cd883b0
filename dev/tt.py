"""dev aid: tt.py PROP -- time per tool"""
import sys, time, os
sys.path.insert(0, '/verif/checks')
import importlib, tooldrv, common
m = importlib.import_module(sys.argv[1])
cap = {}
def fake(rep, H, tools=None, **o):
    cap.update(H=H, o=o, tools=tools or common.TOOLS); raise SystemExit
tooldrv.run_tools = fake
try:
    m.body(common.Report('x'))
except SystemExit: pass
def f(t):
    t0 = time.time(); r = tooldrv.one((cap['H'], t, cap['o'])); return t, time.time() - t0, r[2].get('abstract steps'), r[4]
for r in sorted(common.parallel(f, cap['tools']), key=lambda r: -r[1]): print(r)
