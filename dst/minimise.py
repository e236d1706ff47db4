"""Shrinking of a failing case: fewer faults, fewer runs, fewer source lines, fewer schedule switches.

A smaller case is kept only if judging it gives a violation of the same kind (the text before the
first ':'), so the result is always itself a confirmed violation."""
import copy, json, re, time
from . import model


def kind(msg):
    k, _, rest = msg.partition(':')
    if k.endswith('is rejected'):       # for the same reason: an incomplete program is rejected rightly
        k += re.sub(r'"[^"]*"|\w*\.asm\(\d+\)|\b\w*\d\w*\b', 'N', rest)
    return re.sub(r'\d+', 'N', k)


def ddmin(items, test, deadline):
    """Smallest sublist found for which test(sublist) holds; test(items) is assumed true."""
    n = 2
    items = list(items)
    while items and time.time() < deadline:
        step = max(1, len(items) // n)
        for i in range(0, len(items), step):
            rest = items[:i] + items[i + step:]
            if time.time() > deadline:
                return items
            if test(rest):
                items = rest
                n = max(2, n - 1)
                break
        else:
            if step == 1:
                break
            n = min(len(items), n * 2)
    return items


def size(case):
    files = case['prog']['files'] if 'prog' in case else case['files'] if 'files' in case else {k: '\n' * len(v[1]) for k, v in case['logical'].items()}
    return {'lines': sum(v.count('\n') for k, v in files.items() if k.endswith('.asm')), 'faults': len(case['proc'].get('faults', [])),
            'runs': len(case.get('runs', [1])), 'ops': len(case.get('ops', [])),
            'switches': len(case['proc']['sched'][1]) if case['proc'].get('sched', [''])[0] == 'exp' else (case['proc'].get('sched') or ['none'])[0]}


def minimise(prop, ctx, case, msg, deadline):
    want = kind(msg)
    best = [copy.deepcopy(case), msg]
    tried = [0]
    before = size(case)

    def ok(c):
        if time.time() > deadline:
            return False
        tried[0] += 1
        try:
            m = prop.judge(ctx, c)
        except Exception:
            return False
        if m and kind(m) == want:
            best[0], best[1] = c, m
            return True
        return False

    def with_proc(**kw):
        c = copy.deepcopy(best[0])
        for k, v in kw.items():
            if v is None:
                c['proc'].pop(k, None)
            else:
                c['proc'][k] = v
        return c

    # plain simplifications of the process
    for k in ('sched', 'heap', 'clock', 'disk', 'kill'):
        if k in best[0]['proc']:
            c = with_proc(**{k: None})
            if k == 'sched':
                c['proc'].pop('hot', None)
            ok(c)
    if best[0]['proc'].get('faults') and 'intr' not in best[0]['proc']:
        ddmin(best[0]['proc']['faults'], lambda fs: ok(with_proc(faults=fs)), deadline)
    if len(best[0].get('dmg', [])) > 1:
        ddmin(best[0]['dmg'], lambda x: bool(x) and ok(dict(copy.deepcopy(best[0]), dmg=x)), deadline)
    # runs of a history
    if 'runs' in best[0]:
        def drop(i):
            c = copy.deepcopy(best[0])
            del c['runs'][i]
            if 'wants' in c:
                del c['wants'][i]
            if 'faulted' in c:
                c['faulted'] = [x - (x > i) for x in c['faulted'] if x != i]
                if not c['faulted']:
                    c['proc'].pop('faults', None)
            return c
        i = 0
        while i < len(best[0]['runs']) and len(best[0]['runs']) > 1 and time.time() < deadline:
            if not ok(drop(i)):
                i += 1
    # operations of a model history
    if 'ops' in best[0]:
        def with_ops(ops):
            c = copy.deepcopy(best[0])
            c['ops'] = copy.deepcopy(ops)
            model.drop_undefined(c['ops'])
            return c
        ddmin(best[0]['ops'], lambda o: ok(with_ops(o)), deadline)
    # lines of a logical text
    for name in sorted(n for n in best[0].get('logical', {}) if not n.endswith('.tbl')):     # what a table holds is part of the expectation
        def with_items(items, name=name):
            c = copy.deepcopy(best[0])
            c['logical'][name][1] = copy.deepcopy(items)
            return c
        ddmin(best[0]['logical'][name][1], lambda x: ok(with_items(x)), deadline)
        for i, it in enumerate(best[0]['logical'][name][1]):
            if it['l'].startswith((';', '//')):
                for n in (2, 100, 1000, 4000):
                    c = copy.deepcopy(best[0])
                    c['logical'][name][1][i]['l'] = it['l'][:n]
                    if n < len(it['l']) and ok(c):
                        break
    for name in sorted(best[0].get('logical', {})):
        if not any(name in (it.get('inc'), it.get('tab')) for r, x in best[0]['logical'].values() for it in x) and name != 'main.asm':
            c = copy.deepcopy(best[0])
            del c['logical'][name]
            del c['enc'][name]
            ok(c)
    # source lines
    if getattr(prop, 'shrink_lines', True) and 'ops' not in best[0] and 'wants' not in best[0] and 'regions' not in best[0]:
        files = best[0]['prog']['files'] if 'prog' in best[0] else best[0]['files']
        for name in sorted(files):
            if time.time() > deadline or '.asm' not in name or files[name][:2] in ('\xff\xfe', '\xfe\xff'):
                continue

            def with_lines(ls, name=name):
                c = copy.deepcopy(best[0])
                (c['prog']['files'] if 'prog' in c else c['files'])[name] = '\n'.join(ls)
                return c
            ddmin(files[name].split('\n'), lambda ls: ok(with_lines(ls)), deadline)
        # files nothing needs any more
        for name in sorted(files):
            c = copy.deepcopy(best[0])
            (c['prog']['files'] if 'prog' in c else c['files']).pop(name)
            ok(c)
    # schedule: write the switches out and drop as many as possible
    s = best[0]['proc'].get('sched')
    if s and s[0] != 'exp':
        exp = explicit(prop, ctx, best[0])
        if exp is not None and len(exp) < 200000:
            c = with_proc(sched=['exp', exp], hot=None)
            if ok(c):
                ddmin(exp, lambda e: ok(with_proc(sched=['exp', e])), deadline)
    after = size(best[0])
    return best[0], best[1], {'before': before, 'after': after, 'attempts': tried[0]}


def explicit(prop, ctx, case):
    from . import props
    proc = dict(case['proc'])
    proc['wantsched'] = True
    if 'ops' in case or 'regions' in case:
        sc = props.scen(prop.prog(case), proc)
    elif 'runs' in case:
        proc['runs'] = case['runs']
        sc = {'files': case['files'] if 'files' in case else props.text.render(case['logical'], case['enc']), 'procs': [proc]}
    elif 'run' in case:
        proc['runs'] = [case['run']]
        sc = {'files': case['prog']['files'], 'procs': [proc]}
    else:
        sc = props.scen(case['prog'], proc)
    try:
        r = ctx.sim.run(sc)[0]
    except Exception:
        return None
    return r.d.get('sched')
