"""Entry point of a Jython worker:  main.py MODULE list TIER OUT
                                    main.py MODULE run SPEC.json
                                    main.py MODULE replay CEX.json OUT"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'stubs'))

import base


def main(argv):
  if argv[1] == 'replay':
    os.environ['VERIF_REPLAY'] = '1'
  mod = importlib.import_module(argv[0])
  if argv[1] == 'list':
    with open(argv[3], 'w') as f:
      json.dump([{'id': c['id'], 'w': c.get('w', 1)}
                 for c in mod.cases(argv[2])], f)
  elif argv[1] == 'run':
    with open(argv[2]) as f:
      base.worker(mod, base.from_json(json.load(f)))
  elif argv[1] == 'replay':
    with open(argv[2]) as f:
      cex = base.from_json(json.load(f))
    known = {}
    for tier in ('thorough', 'quick'):
      for c in mod.cases(tier):
        known[c['id']] = c
    case = known[cex['case']]
    real = sys.stdout
    sys.stdout = base.Sink()
    if hasattr(mod, 'setup_replay'):
      mod.setup_replay()
    # what the same process did before, when the failure needs it
    n = 0
    r = {}
    for cid, inp in cex.get('earlier') or []:
      if cid in known:
        n += 1
        r = base.replay_safe(mod, known[cid], inp, 60)
        if r.get('violated'):
          break
    if not r.get('violated'):
      r = base.replay_safe(mod, case, cex['inputs'], max(120, 2 * case.get('replay_s', 60)))
    if n and r.get('violated'):
      r['observed'] = '%s [after the %d earlier runs listed in the replay file]' % (r.get('observed'), n)
    sys.stdout = real
    with open(argv[3], 'w') as f:
      json.dump(base.to_json(r), f)
  sys.stdout.flush()
  os._exit(0)


main(sys.argv[1:])
