"""C17: histories of the streaming detection evaluator."""
import gc
import numpy as np
import rt, tfsim
from props import det
from rt import W, WP, F, FP, pick, probe, fault, check

M = {}


def run():
  gc.collect = lambda *a: 0
  config, dof = det.make_config(M['cfg'], M['metrics_pb2'], M['breakdown_pb2'], M['label_pb2'])
  cfg = config.SerializeToString()
  op = det.Op(len(M['cfg'].get_breakdown_names_from_config(config)))
  rate = (0, 4, 12, 40)[F(4)]
  armed = [False]

  def on_op(name):
    rt.C.steps += 1
    if armed[0] and rate and FP(1, rate):
      fault('op fails: ' + name)
      raise tfsim.ResourceExhaustedError('OOM when allocating tensor in ' + name)
  tfsim.ON_OP = on_op
  ne = 1 + W(2)
  evs = [M['ev'].WODDetectionEvaluator(config=config) for _ in range(ne)]
  model = [[] for _ in range(ne)]
  speedless = WP(1, 3)  # whether batches may leave the optional speed out
  nops = 5 + W(14)
  reads = 0
  for k in range(nops):
    e = W(ne)
    ev = evs[e]
    what = pick(['update', 'update', 'update', 'bad update', 'evaluate', 'result', 'reset'])
    rt.note(e, what)
    rt.event('%d %s' % (e, what))
    if what in ('update', 'bad update'):
      p, g = det.batch(k, dof)
      tp = {n: tfsim.Tensor(v) for n, v in p.items()}
      tg = {n: tfsim.Tensor(v) for n, v in g.items()}
      rt.note(p['prediction_bbox'].tobytes(), g['ground_truth_bbox'].tobytes())
      if speedless and WP(1, 2):
        del tg['ground_truth_speed']
        g['ground_truth_speed'] = np.zeros((len(g['ground_truth_frame_id']), 2), np.float32)
      if WP(1, 6):
        tg['recall_at_precision'] = 0.95
      if WP(1, 6):
        tp['prediction_extra'] = tfsim.Tensor(np.zeros(3, np.float32))
      if WP(1, 3):
        tp = dict(reversed(list(tp.items())))
        tg = dict(reversed(list(tg.items())))
      missing = []
      if what == 'bad update':
        for d, names in ((tp, det.PRED), (tg, det.GT[:4])):
          if W(2) or (d is tg and not missing):
            n = pick(names)
            del d[n]
            missing.append(n)
        fault('required field missing')
      keys = (sorted(tp), sorted(tg))
      armed[0] = True
      try:
        ev.update_state(tg, tp)
      except tfsim.OpError:
        probe('update failed')
        rt.event('failed')
      except Exception as x:
        check(missing, 'update-refused', 'a complete update was refused: %s %s', type(x).__name__, str(x)[:200])
        probe('update refused')
      else:
        check(not missing, 'incomplete-update-accepted', 'an update without %s was accepted', missing)
        model[e].append((p, g))
        probe('update')
      armed[0] = False
      check((sorted(tp), sorted(tg)) == keys, 'caller-changed', "update_state changed the caller's dictionary")
    elif what == 'reset':
      ev.reset_states()
      model[e] = []
    else:
      op.calls.clear()
      armed[0] = True
      try:
        got = getattr(ev, what)()
      except tfsim.ResourceExhaustedError:
        probe('read failed')
        armed[0] = False
        continue
      except Exception as x:
        check(not model[e], 'read-failed', '%s of %d accepted updates failed: %s %s', what, len(model[e]), type(x).__name__,
              str(x)[:300])
        probe('read of nothing')
        armed[0] = False
        continue
      armed[0] = False
      verify(op, got, model[e], dof, cfg, e, what)
      reads += len(model[e]) > 0
      if what == 'result':
        model[e] = []
  for e, ev in enumerate(evs):
    if model[e]:
      reads += 1
      verify(op, ev.evaluate(), model[e], dof, cfg, e, 'evaluate')
  if reads >= 1 and nops >= 4:
    rt.nontrivial()


def verify(op, got, accepted, dof, cfg, e, what):
  want = det.total(accepted, dof)
  check(op.calls, 'not-evaluated', '%s of evaluator %d did not evaluate anything', what, e)
  (c, used) = op.calls[-1]
  check(used == cfg, 'config', 'evaluated with another configuration')
  check(c is not None and c[0] is not None and c[1] is not None and c[0] == want[0] and c[1] == want[1], 'frames-differ',
        '%s of evaluator %d: %d accepted updates hold %d predictions and %d ground truths; evaluated were %d and %d%s', what, e,
        len(accepted), len(want[0]), len(want[1]), len(c[0]), len(c[1]),
        '' if (len(c[0]), len(c[1])) != (len(want[0]), len(want[1])) else ', with other contents')
  out = op.outputs(want, cfg)
  names = ['average_precision', 'average_precision_ha_weighted', None, 'precision_recall', 'precision_recall_ha_weighted', None,
           'breakdown']
  for i, n in enumerate(names):
    if n:
      v = got[n] if isinstance(got, dict) else getattr(got, n)
      check(np.array_equal(np.asarray(v), out[i]), 'result', '%s of evaluator %d: %s is not what was computed', what, e, n)
  op.calls.clear()


def setup(args):
  tfsim.module()
  from waymo_open_dataset.metrics.python import wod_detection_evaluator as ev, config_util_py as cfg
  from waymo_open_dataset.protos import metrics_pb2, breakdown_pb2
  from waymo_open_dataset import label_pb2
  M.update(ev=ev, cfg=cfg, metrics_pb2=metrics_pb2, breakdown_pb2=breakdown_pb2, label_pb2=label_pb2)
  return run
