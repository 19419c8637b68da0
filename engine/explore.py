"""Path exploration by re-execution from decision prefixes."""
import time, traceback
from . import machine as mc
from .machine import *
from . import codegen, ext


def run_one(prog, harness, prefix, model):
    M.harness = harness
    reset_path(prefix, model)
    st = mc.ST
    ok = False
    try:
        fn = prog.func('@' + harness)
        fn()
        ok = True
    except PathEnd:
        st.infeasible += 1
    except Violation:
        st.paths += 1
    except CxxThrow as e:
        try:
            record_violation('throw', 'throw', (), None, 'uncaught C++ exception')
        except Violation:
            pass
        st.paths += 1
    except Unsupported as e:
        k = '%s: %s' % (harness, e)
        st.unsupported[k] = st.unsupported.get(k, 0) + 1
    except RecursionError:
        k = traceback.format_exc().strip().split('\n')[-3:]
        if any('<ir ' in l for l in k):
            # the library recursing without end; anything else is the engine's own depth
            try:
                record_violation('hang', 'hang', (), None, 'unbounded recursion')
            except Violation:
                pass
            st.paths += 1
        else:
            k = '%s: engine %s' % (harness, ''.join(k))
            st.unsupported[k] = st.unsupported.get(k, 0) + 1
    except (ZeroDivisionError, TypeError, KeyError, AttributeError, z3.Z3Exception, IndexError,
            OverflowError, ValueError) as e:
        k = '%s: engine %s' % (harness, ''.join(traceback.format_exc().strip().split('\n')[-3:]))
        st.unsupported[k] = st.unsupported.get(k, 0) + 1
    st.decisions += max(0, len(M.dec) - len(prefix))
    if ok:
        st.paths += 1
        for t in M.tags:
            t = harness + ':' + t
            st.covers[t] = st.covers.get(t, 0) + 1
        st.max_inputs = max(st.max_inputs, len(M.inputs))
        if st.witness is None and M.model_ok:
            st.witness = {}
        if M.model_ok and len(st.witness or {}) < 1 and harness not in (st.witness or {}):
            nm = cur_model_named()
            st.witness = {harness: input_values(nm)}
    return M.pending


def explore(prog, harness, pending, tslice, cfgd, maxviol=3):
    """explore from the given pending prefixes for at most tslice seconds; returns (stats dict, remaining pending)"""
    mc.ST = st = Stats()
    for k, v in cfgd.items():
        setattr(cfg, k, v)
    prog.install()
    # a fresh solver per slice keeps memory bounded
    M.solver = SolverStack()
    t0 = time.time()
    stack = list(pending)
    while stack:
        prefix, model = stack.pop()
        new = run_one(prog, harness, prefix, model)
        stack.extend(new)
        if time.time() - t0 > tslice:
            break
        if len(st.violations) >= maxviol:
            break
    return st.dump(), stack
