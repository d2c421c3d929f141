"""Verdicts, known findings and evidence files."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Finding:
    """one violated obligation.  `key` identifies the construct independently of line numbers."""
    def __init__(s, rule, msg, loc, trace=(), key=None):
        s.rule = rule; s.msg = str(msg); s.loc = str(loc); s.trace = [str(t) for t in trace]
        s.key = key or '%s|%s' % (rule, s.loc)


class Result:
    def __init__(s, level, explanation):
        s.level = level; s.explanation = explanation
        s.findings = []; s.obligations = 0; s.coverage = {}; s.samples = []; s.errors = []; s.assumptions = []
        s.trusted = []

    def ob(s, ok, rule, msg, loc, trace=(), key=None):
        s.obligations += 1
        if not ok: s.findings.append(Finding(rule, msg() if callable(msg) else msg, loc, trace, key))
        return ok


def known():
    """-> {property: {key: description}} of recorded, unrepaired findings ('fixed:' lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding:\s+property=(\S+)\s+key=<<(.*?)>>\s+(.*)', l)
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def finish(pid, tier, res, t0):
    kn = known().get(pid, {})
    new = {}
    hit = {}
    for f in res.findings:
        if f.key in kn: hit.setdefault(f.key, f)
        else: new.setdefault(f.key, []).append(f)
    for k, f in hit.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kn[k], f.loc))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    viol = []
    rp = os.path.join(VERIF, 'evidence', 'replay', '%s.txt' % pid)
    if new:
        with open(rp, 'w') as o:
            o.write('%s: %d distinct violations\nre-run: cd %s && python3 check.py %s %s\n' % (pid, len(new), VERIF, pid, tier))
            for k, fs in new.items():
                f = fs[0]
                o.write('\n[%s] %s\n  at %s (%d path(s))\n' % (f.rule, f.msg, f.loc, len(fs)))
                for t in f.trace: o.write('    %s\n' % t)
        for k, fs in list(new.items())[:20]:
            f = fs[0]
            viol.append({'rule': f.rule, 'message': f.msg[:500], 'location': f.loc, 'key': k, 'paths': len(fs)})
            print('  [%s] %s: %s' % (f.rule, f.loc, f.msg[:300]))
    elif os.path.exists(rp): os.remove(rp)
    nf = sum(len(v) for v in new.values()) + len(hit)
    cov = dict(res.coverage)
    cov['explanation'] = res.explanation
    cov['obligations'] = res.obligations
    cov['discharged'] = max(0, res.obligations - len(res.findings))
    cov['checker_cmd'] = 'cd /verif && python3 check.py %s %s' % (pid, tier)
    cov['trusted_base'] = res.trusted or ['clang 18 front end (C semantics to LLVM IR, same flags as the build apart from optimisation)',
                                          'the abstract interpreter in /verif/sa (engine.py, dom.py, loops.py) and its libc models (models.py)']
    if res.samples: cov['samples'] = res.samples[:8]
    if hit: cov['known_findings'] = sorted(hit)
    if res.errors: cov['errors'] = res.errors[:10]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': res.level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    if res.assumptions: ev['assumptions'] = res.assumptions
    if viol: ev['violations'] = viol
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o: json.dump(ev, o, indent=1, default=str)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if res.errors:
        for e in res.errors[:5]: print('ERROR %s: %s' % (pid, e[-600:]), file=sys.stderr)
        return 2
    if res.obligations == 0:
        print('ERROR %s: nothing to check was found' % pid, file=sys.stderr)
        return 2
    print('%s: %d obligations, all discharged (%.1f s)%s' % (pid, res.obligations, time.time() - t0, ', %d known finding(s)' % len(hit) if hit else ''))
    return 0
