import functools
import multiprocessing
import os
import time
import warnings

from hypothesis import strategies as st

from zernpy.utils.intmproc import DispenserManager

from ..core import Check, isolated, note, require

CHECK = Check("P30", "generated numbers of workers (2 to 8, none, meaningless ones), lists of 8 to 60 parameters with generated delays of single calls (equal, first slow, last slow, "
              "decreasing, random), sequences of compute / new parameters / close over 1 to 3 managers which overlap or follow each other, every case in processes of its own with "
              "a time limit; non-trivial: delays differ or more than one computation is done",
              ["parameter lists are at least as long as the number of workers (documented) and as half of the processors (used if the number of workers is refused)",
               "functions don't raise: an exception in a worker is not part of the documented behaviour"])
LIMIT = 90.0


def value_and_delay(p):
    v, delay = p
    if delay:
        time.sleep(delay)
    return v


def text(p):
    time.sleep(p[1]); return {"value": [p[0]] * 3, "text": f"{p[0]}"}


def large(p):
    time.sleep(p[1]); return [p[0]] * 30000


def none(p):
    return None


def scaled(p, factor):
    return p[0] * factor


class Callable:
    def __call__(self, p):
        return -p[0]


FUNCTIONS = {"value": (value_and_delay, lambda p: p[0]), "structure": (text, lambda p: {"value": [p[0]] * 3, "text": f"{p[0]}"}), "large": (large, lambda p: [p[0]] * 30000),
             "partial": (functools.partial(scaled, factor=3.5), lambda p: p[0] * 3.5), "object": (Callable(), lambda p: -p[0]), "None": (none, lambda p: None)}
HALF = max(2, (os.cpu_count() or 2) // 2)
LENGTH = st.one_of(st.integers(8, 20), st.integers(8, 60), st.just(8)); DELAYS = st.sampled_from(["no", "no", "first slow", "last slow", "decreasing", "random", "equal"])
LIST = st.tuples(LENGTH, DELAYS, st.integers(0, 1000))


def parameters(spec, tag):
    n, kind, seed = spec
    import random
    rng = random.Random(seed)
    delay = {"no": lambda i: 0, "first slow": lambda i: 0.05 if i == 0 else 0, "last slow": lambda i: 0.05 if i == n - 1 else 0, "decreasing": lambda i: 0.01 * (n - i) / n,
             "random": lambda i: rng.choice([0, 0, 0.002, 0.02]), "equal": lambda i: 0.003}[kind]
    values = list(range(n)); how = seed % 4
    if how < 2:
        rng.shuffle(values)  # not sorted
    elif how == 2:
        values = [-v if v % 3 else v // 2 for v in values]  # some of them repeated, both signs
    return [(tag * 1000 + v + (rng.random() if how != 2 else 0), delay(i)) for i, v in enumerate(values)]


def children():
    return [p for p in multiprocessing.active_children()]


def wait_no_children(allowed, case):
    limit = time.monotonic() + 15
    while time.monotonic() < limit:
        if len(children()) <= allowed:
            return
        time.sleep(0.02)
    require(False, "workers are left running after closing", case, len(children()), allowed)


def history(case):
    """Operations on several managers: create, compute, update, close."""
    managers, ops = case; live = {}; params = {}; known = {}; tag = 0; returned = []
    for what, who, spec in ops:
        who %= len(managers); workers, fname, first = managers[who]; fn, want = FUNCTIONS[fname]
        if who not in live:
            tag += 1; params[who] = parameters(first, tag)
            count = len(children())
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always"); live[who] = DispenserManager(compute_func=fn, params_list=params[who], n_workers=workers); known[who] = len(children()) - count
            if workers is None or 2 <= workers <= (os.cpu_count() or 2):
                require(not [x for x in w if x.category is UserWarning], "warning at a normal start of workers", case, [str(x.message) for x in w][:3])
            expected = workers if workers is not None and 2 <= workers <= (os.cpu_count() or 2) else (os.cpu_count() or 2) // 2
            require(known[who] == expected == live[who].workers_number, "number of workers", case, known[who], expected)
        m = live[who]; note(what)
        if what == "update":
            tag += 1; params[who] = parameters(spec, tag); m.update_params(params[who])
        elif what == "close":
            m.close(); wait_no_children(sum(n for k, n in known.items() if k != who and k in live), case)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always"); result = m.compute()
            require(result is None and len(w) > 0, "computing after closing", case, repr(result)[:100], len(w))
            m.update_params(params[who]); m.close()
            require(m.compute() is None, "computing after closing", case)
            del live[who]; del m
            continue
        if what in ("compute", "update"):
            kept = list(params[who]); got = m.compute()
            require(isinstance(got, list) and got == [want(p) for p in kept], "results differ from the function values in the order of parameters", case, repr(got)[:300])
            require(params[who] == kept, "list of parameters is modified", case)
            for earlier, copied in returned:
                require(earlier == copied, "earlier returned results are changed by a later computation", case)
            returned.append((got, list(got)))
    for who, m in list(live.items()):
        m.close()
    wait_no_children(0, case)
    for earlier, copied in returned:
        require(earlier == copied, "earlier returned results are changed later", case)


MANAGER = st.tuples(st.sampled_from([2, 2, 3, 4, 5, 8, None]), st.sampled_from(["value", "value", "value", "structure", "large", "partial", "object", "None"]), LIST)
OP = st.tuples(st.sampled_from(["compute", "compute", "update", "update", "close"]), st.integers(0, 2), LIST)


@CHECK.gen("histories", st.tuples(st.lists(MANAGER, min_size=1, max_size=3), st.lists(OP, min_size=1, max_size=6)), quick=28, max_shrink=120, batch=20,
           nontrivial=lambda c: len(c[1]) > 1)
def histories(case):
    managers, ops = case
    if any(n < HALF for _, _, (n, _, _) in managers):
        managers = [[w, f, [max(n, HALF), d, s]] for w, f, (n, d, s) in managers]
    isolated(lambda: history([managers, ops]), LIMIT)


@CHECK.gen("one_computation", st.tuples(st.sampled_from([2, 3, 4, 7, 8]), LIST), quick=12, max_shrink=120, batch=20, nontrivial=lambda c: c[1][1] != "no")
def one(case):
    workers, spec = case

    def do():
        p = parameters([max(spec[0], workers)] + spec[1:], 1); m = DispenserManager(value_and_delay, p, workers)
        for _ in range(2):
            got = m.compute()
            require(got == [x[0] for x in p], "results differ from the function values in the order of parameters", case, repr(got)[:300])
        del m  # without closing
        wait_no_children(0, case)
    isolated(do, LIMIT)


@CHECK.gen("lists_as_long_as_workers", st.tuples(st.integers(2, 8), DELAYS, st.integers(0, 1000)), quick=7, max_shrink=60, batch=14)
def shortest(case):
    workers, kind, seed = case; workers = min(workers, os.cpu_count() or 2)

    def do():
        p = parameters([workers, kind, seed], 2); m = DispenserManager(value_and_delay, p, workers); got = m.compute()
        require(got == [x[0] for x in p], "results differ from the function values in the order of parameters", case, repr(got)[:300])
        p = parameters([workers + 1, kind, seed], 3); m.update_params(p)
        require(m.compute() == [x[0] for x in p], "results with new parameters", case)
        if workers > 2:
            for bad, error in (([], TypeError), (p[:workers - 1], ValueError)):
                try:
                    m.update_params(bad)
                except error:
                    continue
                require(False, "too short list is accepted", case, len(bad))
            require(m.compute() == [x[0] for x in p], "results after refused parameters", case)
        m.close(); wait_no_children(0, case)
    isolated(do, LIMIT)


@CHECK.gen("refused", st.tuples(st.sampled_from(["empty", "short", "not callable"]), st.integers(2, 8), st.sampled_from([3, "text", None, 0.5])), quick=25)
def refused(case):
    what, workers, thing = case; workers = min(workers, os.cpu_count() or 2)

    def do():
        p = parameters([10, "no", 0], 1); errors = (TypeError, ValueError)
        try:
            if what == "empty":
                errors = TypeError; DispenserManager(value_and_delay, [], workers)
            elif what == "short":
                errors = ValueError; DispenserManager(value_and_delay, p[:workers - 1], workers)
            else:
                errors = TypeError; DispenserManager(thing, p, workers)
        except errors:
            require(len(children()) == 0, "workers are started in spite of the error", case)
            return
        require(False, f"{what}: no error", case)
    isolated(do, 30.0)


@CHECK.gen("meaningless_number_of_workers", st.tuples(st.one_of(st.integers(-3, 1), st.integers(1000, 2000)), st.integers(0, 30)), quick=6)
def meaningless(case):
    workers, extra = case

    def do():
        p = parameters([HALF + extra, "no", extra], 1)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always"); m = DispenserManager(value_and_delay, p, workers)
        require(len(w) > 0, "no warning about the number of workers", case)
        require(m.compute() == [x[0] for x in p], "results", case); require(len(children()) == (os.cpu_count() or 2) // 2, "number of workers", case, len(children()))
        m.close(); wait_no_children(0, case)
    isolated(do, LIMIT)


@CHECK.gen("long_lists", st.tuples(st.sampled_from([2, 3, 5, 8]), st.integers(61, 3000), st.integers(0, 1000), st.integers(61, 1500)), quick=6, max_shrink=40, batch=12)
def long_lists(case):
    workers, size, seed, second = case

    def do():
        p = parameters([size, "no", seed], 1); m = DispenserManager(value_and_delay, p, workers)
        require(m.compute() == [x[0] for x in p], "results differ from the function values in the order of parameters", case)
        q = parameters([second, "no", seed + 1], 2); m.update_params(q)
        require(m.compute() == [x[0] for x in q], "results after new parameters", case)
        m.close(); wait_no_children(0, case)
    isolated(do, LIMIT)
