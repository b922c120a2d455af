"""Common flow of P01 / P03: TLC enumerates operators, the real ones are exercised, TLC judges."""
import json
from lib import vf
from drivers import lopkit


def gen(rep, nmax, nonlinear=False):
    out, st = vf.tlc('LopGen', f'SPECIFICATION Spec\nCONSTANTS NMax={nmax} Emit=TRUE BigLevel=0\n'
                     'INVARIANTS Law InvLaw\nCHECK_DEADLOCK FALSE\n')
    rep.model(st)
    cases = [c for c in vf.printed_json(out) if nonlinear or c['k'] != 'realpart']
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    if len(cases) < 300:
        raise vf.MachineryError(f'only {len(cases)} operator cases generated')
    return cases


def key_of(d):
    parts = [d['k']] + [str(d[f]) for f in ('kind', 'name', 'wavelet', 'cplx') if f in d]
    return ':'.join(parts).replace(' ', '')


def chunk(cases, size=12):
    # interleave so that chunks are balanced
    k = max(1, (len(cases) + size - 1) // size)
    return [cases[i::k] for i in range(k)]


def run(rep, modname, cases, verdict, selftest=True):
    chunks = chunk(cases)
    res = vf.run_cases(modname, chunks)
    events = []
    for ch, r in zip(chunks, res):
        if r is None:
            raise vf.MachineryError('case not executed')
        if r[0] == 'exc':
            rep.add('harness:' + key_of(ch[0]), 'exercising the operators failed: ' + r[1][-300:], ch)
            continue
        events += r[1]
    judge(rep, events, verdict)
    return events


def judge(rep, events, verdict, module='LopTrace'):
    n = len(events)
    sent = []
    if events:
        # sentinel: a corrupted copy of a good event must be rejected by the specification
        for e in events:
            if e.get('kind') == 'op' and e['exc'] == '' and len(e['fwd']['re']) > 1:
                c = json.loads(json.dumps(e))
                c['fwd']['re'][0][0] += 600
                c['flags']['real'] = True
                c['fwd']['im'][0][0] += 600
                sent.append(c)
                break
    bad, st = vf.validate(module, events + sent, verdict=f'Verdict <- {verdict}')
    for i in sorted(bad):
        if i < n:
            e = events[i]
            rep.add(key_of(e['d']) + ':' + '+'.join(bad[i]) if 'd' in e else e.get('key', '?') + ':' + '+'.join(bad[i]),
                    f"{e.get('d', e)} breaks {bad[i]} {e.get('exc', '')}"[:600], e)
    if not rep.viol and sent and n not in bad:
        raise vf.MachineryError('specification accepted a corrupted event')
    rep.traces(events, st)
    return bad
