"""One exploration task: a case and a prefix of decisions."""
import random
import sys
import time
import traceback
import z3
from . import engine, state, values as V, rt
from .ctx import SymCtx, inputs_under, obs_eval, AssumeFailed, run_case


def explore(harness, case, prefix, slice_s, sample_rate, seed, max_viol=2, samples_cap=6):
    eng = engine.Engine(getattr(harness, 'QUERY_TIMEOUT_MS', 20000))
    engine.set_active(eng)
    rt.setup_hooks()
    rng = random.Random('%s/%s/%s' % (seed, case, prefix))
    out = {'violations': [], 'samples': [], 'leftover': [], 'unsupported': []}
    t0 = time.time()
    eng.start(prefix)
    while True:
        eng.reset_path()
        state.restore()
        ctx = SymCtx(eng)
        status = 'ok'
        viol = None
        try:
            run_case(harness, ctx, case)
        except engine.PathEnd:
            status = 'pruned'
            eng.stats.pruned += 1
        except engine.PathCut as e:
            status = 'cut'
            eng.stats.cut += 1
            eng.stats.cuts[e.why] = eng.stats.cuts.get(e.why, 0) + 1
        except engine.Violation as v:
            status = 'violation'
            viol = (v.msg, v.model, None)
        except engine.StepLimit as e:
            status = 'violation'
            viol = ('does not terminate (%s)' % e, None, None)
        except Exception as e:
            status = 'violation'
            tb = traceback.format_exc(limit=-6)
            viol = ('raised %s: %s' % (type(e).__name__, str_safe(e)), None, tb)
        finally:
            ctx.close_ctx()
        eng.stats.paths += 1
        if viol is not None:
            msg, model, tb = viol
            try:
                if model is None:
                    eng.model = None
                    model = eng.current_model()
                vals = inputs_under(V, z3, model, eng.inputs)
                out['violations'].append({'case': case, 'values': vals, 'msg': msg, 'tb': tb})
            except engine.PathEnd:
                eng.stats.pruned += 1
            except engine.PathCut:
                eng.stats.cut += 1
        elif status == 'ok' and len(out['samples']) < samples_cap and rng.random() < sample_rate(eng.stats.paths):
            try:
                m = eng.current_model()
                out['samples'].append({'case': case, 'values': inputs_under(V, z3, m, eng.inputs),
                                       'observed': [obs_eval(V, z3, m, o) for o in eng.observed]})
            except (engine.PathEnd, engine.PathCut):
                pass
        if len(out['violations']) >= max_viol or time.time() - t0 > slice_s:
            out['leftover'] = eng.leftovers()
            break
        if not eng.backtrack():
            break
    out['secs'] = time.time() - t0
    out['stats'] = eng.stats.as_dict()
    engine.set_active(None)
    return out


def str_safe(e):
    try:
        return str(e)
    except BaseException:
        return '?'
