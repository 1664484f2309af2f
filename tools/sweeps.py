"""Histories written out in full: every small size against every small count, position
and length, where relations between them decide which way the code goes."""

def js(*w):
    return ' '.join(str(x) for x in w)

def run(n, start=1):
    return list(range(start, start + n))

def vector(bound=None):
    """Insertions of k elements before t, with room and without; all ranges erased."""
    top = min(18, bound or 18)
    r = []
    fits = lambda n: bound is None or n <= bound
    if bound is None:
        r.append('reserve 60')
    for t in range(top):
        for k in range(top):
            if fits(t + 1 + k):
                r += [js('assignr', *run(t + 1)), js('insertn', 1, k, 70) if (t + k) % 3 else js('insertr', 1, *run(k, 50))]
    for n in (5, 8, 17):
        for p in range(n + 1):
            for q in range(p, n + 1):
                if fits(n) and (n < 17 or (p + q) % 2 or p % 4 == 0):
                    r += [js('assignr', *run(n)), js('eraser', p, q)]
    for n in range(1, top):
        for p in (0, n // 2, n - 1):
            r += [js('assignr', *run(n)), js('erase1', p)]
            if fits(n + 1):
                r += [js('insert1', p, 60), js('insert_self', n - 1, p)]
    for n in range(top):
        for m in range(0, top, 1 + n % 3):
            r += [js('assignr', *run(n)), js('resize', m) if (n + m) % 2 else js('resizev', m, 9)]
    if bound is None:
        for n in (0, 1, 2, 3, 4, 7, 8, 9, 16, 17):
            for p in sorted({0, 1, n // 2, n - 1, n}):
                for k in (1, 2, 3, 5, 8, 9, 16):
                    if 0 <= p <= n:
                        r += [js('ctorr', *run(n)), js('insertn', p, k, 70) if (n + k) % 2 else js('insertr', p, *run(k, 50))]
            r += [js('ctorr', *run(n)), 'copy_ctor', js('push_back', 5), js('ctorn', n), js('ctornv', n, 4), 'eq']
    for n in range(1, top):
        for q in range(n):
            r += [js('assignr', *run(n))] + ([js('push_self', q)] if fits(n + 1) else []) + ([js('insertn_self', q, n // 2, 4)] if fits(n + 5) else [])
    return r

def linked(kind):
    """The same for lists: all ranges erased and moved; order after reversing and joining."""
    r = []
    single = kind != 'list' # positions are those before, ranges open
    fill = lambda v: ['clear', js('insertr', 0, *v)] # lazy queues have no assign
    def probe(k): # what is left is a list, at both its ends
        r.extend([js('push_front', 60 + k % 7)] + ([js('push_back', 70 + k % 5)] if kind != 'forward' else []))
    for n in (3, 6, 9):
        for p in range(n + 1):
            for q in range(p + single, n + 1 + single):
                r.extend(fill(run(n)) + [js('eraser', p, q)])
                probe(p + q)
    for n in range(0, 12):
        for p in sorted({0, 1, n // 2, n - 1, n} & set(range(n + 1))):
            for k in (0, 1, 3, 8):
                r.extend(fill(run(n)) + [js('insertn', p, k, 70) if k % 2 else js('insertr', p, *run(k, 50))])
                probe(k)
        for p in sorted({0, n // 2, n - 1} & set(range(n))):
            r.extend(fill(run(n)) + [js('erase1', p)])
            probe(n)
        if kind != 'lazy':
            r.extend(fill(run(n)) + ['reverse'])
            probe(n)
            r.append('reverse')
            for m in range(0, 12, 3):
                r.extend(fill(run(n)) + [js('assignr', *run(m, 30))])
                probe(m)
        else:
            r.extend(fill(run(n)) + ['roll_head'] * 3 + ['push_back 66', 'roll_head', 'copy_ctor', 'push_back 67'])
        for m in (0, 1, 2, 5):
            r.extend(fill(run(m, 30)) + ['swap'] + fill(run(n)) + ['swap'])
            probe(m)
            r.extend(['swap'])
            probe(n)
            r.extend(['assign_ab'] if m % 2 else ['copy_ctor'])
            probe(m + n)
            if kind in ('list', 'forward'):
                for p in sorted({0, n // 2, n}):
                    r.extend(fill(run(m, 30)) + ['swap'] + fill(run(n)) + [js('splice_all', p)])
                    probe(n)
                    r.extend(['swap'])
                    probe(p)
                    if m:
                        r.extend(fill(run(m, 30)) + ['swap'] + fill(run(n)) + [js('splice_one', p, (m + p) % m)])
                        probe(n)
                        r.extend(['swap'])
                        probe(p)
                    for f in sorted({0, m // 2}):
                        for t in sorted({f, m}):
                            r.extend(fill(run(m, 30)) + ['swap'] + fill(run(n)) + [js('splice_range', p, f, t + single)])
                            probe(n)
                            r.extend(['swap'])
                            probe(p)
    if kind in ('list', 'forward'):
        for n in (1, 2, 4, 6):
            for f in range(n + 1):
                for t in range(f + single, n + 1 + single):
                    for p in range(n + 1):
                        if not (p > f and p < t if single else p >= f and p < t):
                            r.extend(fill(run(n)) + [js('move_range', p, f, t)])
                            probe(p)
                for p in range(n + 1):
                    if f < n:
                        r.extend(fill(run(n)) + [js('move_one', p, f)])
    if kind == 'list':
        for n in range(0, 9):
            for a in ([2] * n, run(n), [k // 2 for k in range(n)], [k % 2 for k in range(n)], [k // 3 for k in range(n)]):
                for op in ('remove 2', 'remove 0', 'unique', 'unique_if', 'remove_if 1', 'resize %d' % (n // 2), 'resizev %d 7' % (n + 2)):
                    r.extend(fill(a) + [op])
                probe(n)
                if a == sorted(a):
                    for b in ([], [0], [2, 2], [0, 1, 1, 2, 3, 9], [9], run(n), [1, 5, 6]):
                        r.extend(fill(b) + ['swap'] + fill(a) + ['merge'])
                        probe(n)
    return r

def tree(ins, rem, n=40):
    """Keys in one order, removed in another."""
    r = []
    orders = [list(range(n)), list(range(n))[::-1], [k for p in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for k in p], [k * 7 % n for k in range(n) if n % 7] or list(range(n)),
              [n // 2 + (k + 1) // 2 * (-1) ** k for k in range(n - 1)]]
    for a in orders:
        for b in orders:
            for k in a:
                r += [ins % k] + ([js('look', k + k % 3 - 1)] if k else [])
            for k in b if rem else ():
                r += [rem % k, js('look', k + k % 2)]
            if not rem:
                r += [js('look', k) for k in range(n + 1)] + ['copy_ctor', 'clear']
                break
    return r

def shapes(n):
    """[first, last) of n elements: from the front, from the second, up to the end."""
    return sorted({(0, l) for l in range(n + 1)} | {(1, l) for l in range(1, n + 1)} | {(f, n) for f in range(n + 1)})

def spots(f, l):
    return sorted({f, (f + l) // 2, l - 2, l - 1} & set(range(f, l)))

N = 17
def algo_non():
    r = []
    a = list(range(N))
    r.append(js('load', *a))
    for f, l in shapes(N):
        for t in spots(f, l) + [l]:
            r += [js('find', f, l, t), js('search', f, l, *a[t:t + 2]), js('search', f, l, *a[max(f, t - 2):t + 1])]
        w = a[f:l]
        for op in ('equal4', 'mismatch4', 'equal3', 'mismatch3'):
            for t in spots(0, len(w)):
                r.append(js(op, f, l, *(w[:t] + [40] + w[t + 1:])))
            r += [js(op, f, l, *w), js(op, f, l, *(w + [20]))]
            if op[-1] == '4' and w:
                r.append(js(op, f, l, *w[:-1]))
        r += [js('for_each', f, l), js('adjacent_find', f, l), js('count', f, l, l - 1 if l > f else 0), js('search', f, l, *w), js('search', f, l)]
    for f, l in shapes(12):
        for t in spots(f, l) + ([l] if l < 12 else []):
            one = [0] * 12
            one[t] = 1
            r += [js('load', *one), js('find_if', f, l, 1), js('any_of', f, l, 1), js('none_of', f, l, 1), js('count_if', f, l, 1), js('count', f, l, 0), js('search_n', f, l, t - f, 0), js('search_n', f, l, max(0, l - t - 1), 0)]
            r += [js('load', *[1 - x for x in one]), js('find_if_not', f, l, 1), js('all_of', f, l, 1), js('count', f, l, 0), js('count_if', f, l, 1)]
    for n in range(2, 14):
        for t in range(n - 1):
            b = run(n, 2)
            b[t + 1] = b[t]
            r += [js('load', *b), js('adjacent_find', 0, n), js('adjacent_find', 1, n), js('search_n', 0, n, 2, b[t]), js('search_n', 0, n, 3, b[t])]
    # needles which begin again within themselves
    for hay, pins in (([1, 1, 2] * 4 + [1, 1, 1, 2], ([1, 1, 1, 2], [1, 2, 1, 1, 2, 1, 1, 1], [2, 1, 1, 2, 1, 1, 1], [1, 1, 2, 1, 1, 1])),
                      ([1, 2, 1, 2, 1, 3, 1, 2, 1, 2, 1, 2, 3], ([1, 2, 1, 3], [1, 2, 1, 2, 3], [1, 2, 1, 2, 1, 2], [2, 1, 2, 3], [1, 2, 3])),
                      ([1] * 9 + [2] + [1] * 6, ([1] * 10, [1] * 9 + [2], [1] * 4 + [2, 1], [2] + [1] * 6, [2] + [1] * 7))):
        r.append(js('load', *hay))
        for p in pins:
            for f, l in shapes(len(hay)):
                if f <= 1 or f > len(hay) - 6:
                    r.append(js('search', f, l, *p))
        for k in range(12):
            r += [js('search_n', 0, len(hay), k, 1), js('search_n', 1, len(hay) - 1, k, 1)]
    return r

def algo_mod():
    r = []
    a = list(range(1, N + 1))
    for f, l in shapes(N):
        n = l - f
        for op in ('fill %d %d 3', 'copy %d %d', 'copy_backward %d %d', 'reverse %d %d', 'reverse_copy %d %d', 'transform %d %d', 'transform_in %d %d', 'generate %d %d 5', 'copy_if %d %d 0', 'remove_if %d %d 0',
                   'remove_copy_if %d %d 0', 'replace_if %d %d 0 30', 'replace_copy_if %d %d 0 30'):
            r += [js('load', *a), op % (f, l)]
        r += [js('load', *a), js('fill_n', f, n, 3), js('generate_n', f, n, 5), js('copy_n', f, n), js('load', *a), js('transform2', f, l, *run(n, 2)), js('swap_ranges', f, l, *run(n, 40))]
        for t in spots(f, l):
            r += [js('load', *a), js('remove', f, l, t + 1), js('replace_copy', f, l, t + 2, 31), js('load', *a), js('remove_copy', f, l, t + 1), js('replace', f, l, t + 1, 32)]
        for d in sorted({0, f - 1, f - 3, f, l, N - n}):
            if 0 <= d <= N - n and not f <= d < l:
                r += [js('load', *a), js('copy_in', f, l, d), js('copy_n_in', f, n, d)]
                if d + n <= f or d >= l:
                    r += [js('load', *a), js('swap_ranges_in', f, l, d)]
        for e in sorted({n, l + 1, l + 3, N, f}):
            if n <= e <= N and not (f < e <= l and f != l):
                r += [js('load', *a), js('copy_backward_in', f, l, e)]
    return r

def algo_sort():
    r = []
    for b in ([k // 2 * 2 + 1 for k in range(N)], [k // 5 * 2 + 1 for k in range(N)], [3] * N):
        r.append(js('load', *b))
        for f, l in shapes(N):
            w = b[f:l]
            for v in sorted({0, max(w or [1]) + 1} | {w[t - f] + d for t in spots(f, l) for d in (0, 1)}):
                for op in ('lower_bound', 'upper_bound', 'equal_range', 'binary_search'):
                    r.append(js(op, f, l, v))
                if (f + l) % 3 == 0:
                    r += [js('lower_bound_c', f, l, v, 1), js('upper_bound_c', f, l, v, 1)]
            if f == 0:
                for o in ([], [0], [4], [40], run(l, 2), [3] * 5, run(3, 1) + run(3, 30)):
                    r.append(js('merge', f, l, *o))
            r.append(js('is_sorted', f, l))
    for n in range(1, 15):
        for t in range(n):
            b = run(n, 2)
            b[t] = 1
            r += [js('load', *b), js('min_element', 0, n), js('minmax_element', 0, n), js('is_sorted_until', 0, n), js('is_sorted', 0, n)]
            b[t] = 60
            r += [js('load', *b), js('max_element', 0, n), js('minmax_element', 0, n), js('is_sorted_until', 1, n)]
        b = [5] * n
        r += [js('load', *b), js('min_element', 0, n), js('max_element', 0, n), js('minmax_element', 0, n), js('is_sorted_until', 0, n)]
    return r

def equality(kind, top=20, n0=0):
    """Copies, and copies that differ in one place, or by the last element, or in two places so that sums and ends agree."""
    r = []
    at = 1 if kind == 'slist' else 0
    for n in range(n0, top):
        if kind == 'dict':
            r += ['clear'] + [js('insert', 2 * k, 1) for k in run(n)] + ['copy_ctor', 'eq']
        elif kind == 'set':
            r += ['clear'] + [js('insert', 2 * k, 0) for k in run(n)] + ['copy_ctor', 'eq']
        elif kind == 'array':
            r += [js('set', k, k + 1) for k in range(n)] + ['copy_ctor', 'eq']
        else:
            r += [js('assignr', *run(n)), 'copy_ctor', 'eq']
        for p in range(n):
            if kind in ('dict', 'set'):
                r += [js('erase', 2 * p + 2), 'eq', js('insert', 2 * p + 3, 1 if kind == 'dict' else 0), 'eq', js('erase', 2 * p + 3), js('insert', 2 * p + 2, 1 if kind == 'dict' else 0)]
                if kind == 'dict':
                    r += [js('write', p, 3), 'eq', js('write', p, 1)]
            else:
                w = 'set' if kind == 'array' else 'write'
                r += [js(w, p + at, 50), 'eq', js(w, p + at, p + 1)]
                if p + 1 < n:
                    r += [js(w, p + at, p + 2), js(w, p + 1 + at, p + 1), 'eq', js(w, p + at, p + 1), js(w, p + 1 + at, p + 2)]
        if n and kind not in ('array', 'dict', 'set'):
            r += [js('assignr', *run(n - 1)), 'eq', js('assignr', *run(n + 1)), 'eq', js('assignr', *run(n, 0)), 'eq', js('assignr', *(run(n - 1, 2) + [1])), 'eq']
    return r

def swaps(top=21):
    """Exchanged with as many, a few more, fewer, none; what was made by growing, too."""
    r = []
    for n in range(top):
        for m in sorted({0, 1, n - 1, n, n + 1, n // 2, top - 1} & set(range(top))):
            r += [js('assignr', *run(m, 30)), 'swap', js('assignr', *run(n)), 'swap', 'swap', 'swap_self']
            if n + m < top:
                r += [js('resizev', n + m, 7), 'swap', 'push_back 5', 'swap']
            r += ['assign_ab', 'swap', 'assign_self', 'eq', 'copy_ctor', js('resize', m), 'swap', 'eq']
    return r
