"""Linearizability of one write-once register (a name in a registry).

An operation is (kind, start, end, result):
  claim   result 'ok' (value = what was registered), 'taken', or 'aborted'
          (may or may not have taken effect, at any time after its start)
  read    result = the value seen, or None when absent
`end` is None for aborted claims.  The state is None or the registered value."""


def check(ops, initial=None):
    """None if a linearization exists, else an explanation."""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    must = 0
    for i, o in enumerate(ops):
        if not (o['kind'] == 'claim' and o['result'] == 'aborted'):
            must |= 1 << i
    stack = [(0, initial)]
    best = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return None
        if (done, state) in seen:
            continue
        seen.add((done, state))
        c = bin(done & must).count('1')
        best = max(best, c)
        # an operation may go next if no pending completed one ended before it began
        ends = [ops[i]['end'] for i in range(n) if not done >> i & 1 and must >> i & 1]
        limit = min(ends) if ends else float('inf')
        for i in range(n):
            if done >> i & 1 or ops[i]['start'] > limit:
                continue
            o = ops[i]
            d = done | 1 << i
            if o['kind'] == 'read':
                if o['result'] == state:
                    stack.append((d, state))
            elif o['result'] == 'ok':
                if state is None:
                    stack.append((d, o['value']))
            elif o['result'] == 'taken':
                if state is not None:
                    stack.append((d, state))
            else:
                stack.append((d, state))            # no effect
                if state is None:
                    stack.append((d, o['value']))
    return 'no order of the calls explains the outcomes (best prefix %d of %d)' % (
        best, bin(must).count('1'))
