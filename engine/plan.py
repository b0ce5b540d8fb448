"""What each property's check explores."""
REPO_CRATES = ('asset_agnostic_orderbook', 'dex_wasm', 'critbit')


def is_repo_fn(n):
    return any(c in n for c in REPO_CRATES)


MEANING = {
    'match_small': 'one new order (every parameter symbolic, both sides) against a book of %d opposite and %d own resting orders; 4 slots a side, 8 event slots, queue mode %d, slot layout %d',
    'match_proc': 'one new order through the instruction processor against a book of %d opposite and %d own orders; queue mode %d, slot layout %d, tick size 2^%d',
    'match_full': 'one new order against a book of %d opposite orders, its own side full (capacity %d); queue mode %d, slot layout %d',
    'match_wide': 'one new order against a book of %d opposite and %d own orders of fixed keys; 8 slots a side; queue mode %d, layout %d (60 and up: their quantities and owners fixed too)',
    'match_ring': 'one new order against a book of %d opposite and %d own orders; event queue of %d slots with every head and fill; slot layout %d',
    'self32': 'one new order of any kind against one resting order, with the program\'s own 32-byte owner information',
    'slab_remove': 'removal of any key from a slab of %d orders, layout %d, capacity %d',
    'slab_read': 'find_min / find_max / find_by_key / iteration over a slab of %d orders, layout %d',
    'slab_deep': 'a side of %d orders (shape %d: 0, 1 as deep as it can be, 2 bushy) of fixed keys, quantities and owners arbitrary: operation %d (0 read, 1 remove, 2 post, 3 best prices)',
    'reader_deep': 'the WebAssembly reader on %d orders (tree %d: 0, 1 as deep as it can be, 2, 3 bushy with levels of 2, 7 orders) of fixed keys, quantities arbitrary below 2^56; %d levels asked for',
    'full_deep': 'a full side of 64 orders (shape %d) of fixed keys, quantities and owners arbitrary; one order posted at a price against the worst one: %d (0 better than all, 1 just better, 2 equal, 3 worse)',
    'mass_deep': '%d orders a side (shape %d) of fixed keys, quantities below 2^20 and owners arbitrary; %d of each side cancelled at once (last id: %d, 0 valid, 1 unknown, 2 twice)',
    'consume_deep': 'a queue of 270 slots, head %d, %d events; %d to be consumed (0: any number from all on)',
    'match_sweep': 'one order against a side of %d orders of fixed keys and quantities, match limit %d (0: none), owners arbitrary',
    'queue_ops': 'push, pop_n, peek, iteration on an event queue of %d slots in any state',
    'p_cancel': 'cancellation of any order id on a book of %d bids and %d asks, layout %d',
    'p_mass_cancel': 'mass cancellation on a book of %d bids and %d asks, layout %d, any %d ids',
    'p_mass_cancel_total': 'mass cancellation of everything on a book of %d bids and %d asks, layout %d',
    'p_consume': 'consumption of any number of events from a queue of %d slots in any state',
    'p_create': 'market creation with any parameters, balances and tags; queue of %d events',
    'p_close': 'closing a market with %d bids, %d asks, layout %d, any queue state and balances; with a fourth parameter, any numbers of orders and events',
    'p_auth': 'instruction %d with arbitrary owners, keys and tags',
    'p_cause': 'instruction %d with everything in order but one thing (an owner, a recorded account, a tag, or something in the request)',
    'p_tick': 'one new order of any limit price on a book of %d own and %d opposite orders, any tick size',
    'p_bbo': 'best prices of a book of %d bids and %d asks, layout %d',
    'route': 'operation %d (0 new, 1 cancel, 2 mass cancel, 3 consume, 4 close, 5 create) built by the client and run through the program entrypoint, book of %d bids and %d asks, %d ids listed; callback info of 32 bytes',
    'unknown': 'operation %d (6: every unknown first byte) with %d bytes of instruction data: too few',
    'reader': 'find_min / find_max / find_l2_depth of the WebAssembly reader on a stored book of %d orders, owner information of %d bytes, slot order %d; every tree shape and every pattern of equal prices, depths up to one more than the orders',
    'sizes': 'accounts of computed size, part %d (0: book side of any capacity opened, 1: event queue of any capacity opened, 2: small ones filled)',
    'round': 'round_price on every (tick size, price, side)',
}


def meaning(h, ps):
    m = MEANING.get(h, '')
    n = m.count('%d')
    try:
        return m % tuple(ps[:n])
    except TypeError:
        return m


OUTSIDE = 'larger books, queues and histories than the bounds listed; other callback-info types than the 16-byte one of the harness'
ASSUMPTIONS = [
    'rustc 1.76 LLVM IR (opt-level 2, overflow checks and debug assertions on, x86-64) stands for the code; the on-chain target build is not read',
    'sequence numbers stay below 2^63; fewer than 2^32 slots',
    'models of the allocator, panic machinery, formatting and logging (engine/externs.py)',
]


def match(quick, thorough, **k):
    d = dict(quick=[('match_small', q) for q in quick], thorough=[('match_small', q) for q in thorough])
    d.update(k)
    return d


# n opposite, m own, queue mode, layout
Q1 = [(0, 1, 0, 0), (1, 1, 0, 1), (2, 1, 1, 2)]
T1 = [(0, 0, 0, 0), (0, 1, 0, 0), (0, 2, 0, 1), (0, 3, 0, 2), (1, 0, 0, 0), (1, 1, 0, 1), (1, 2, 0, 2), (1, 3, 4, 1), (2, 0, 2, 0), (2, 1, 1, 2), (2, 2, 4, 1),
      (3, 0, 0, 1), (3, 1, 0, 2), (3, 2, 4, 0), (1, 0, 0, 99), (0, 1, 0, 99), (2, 0, 0, 99), (0, 2, 0, 99)]

# full own side: n opposite, own orders = capacity m, queue mode, layout
QF = [(0, 1, 0, 0), (1, 2, 0, 1)]
TF = [(0, 1, 0, 0), (0, 2, 0, 1), (0, 3, 0, 2), (1, 1, 0, 1), (1, 2, 0, 1), (1, 3, 0, 0), (2, 1, 0, 2), (2, 2, 0, 0)]


def H(h, *ps):
    return [(h, p if isinstance(p, tuple) else (p,)) for p in ps]


PLAN = {}
for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14):
    PLAN['C%02d' % i] = match(Q1, T1)
    PLAN['C%02d' % i]['quick'] = PLAN['C%02d' % i]['quick'] + H('match_full', (0, 1, 0, 0), *([(1, 1, 0, 1)] if i in (1, 3, 5, 6, 7, 11, 14) else []))
    PLAN['C%02d' % i]['thorough'] = PLAN['C%02d' % i]['thorough'] + H('match_full', *TF)
    PLAN['C%02d' % i]['quick'] = PLAN['C%02d' % i]['quick'] + H('match_wide', (5, 1, 0, 61))
    PLAN['C%02d' % i]['thorough'] = PLAN['C%02d' % i]['thorough'] + H('match_wide', (5, 0, 0, 60), (6, 1, 0, 62), (4, 4, 0, 61), (5, 1, 0, 50))
    q = PLAN['C%02d' % i]['quick']
    q[q.index(('match_small', (1, 1, 0, 1)))] = ('match_proc', (1, 1, 0, 1, 0))
    q += H('match_proc', (0, 1, 0, 0, 36))
    PLAN['C%02d' % i]['thorough'] += H('match_proc', (0, 1, 0, 0, 36), (1, 1, 0, 1, 0), (2, 1, 0, 2, 0), (1, 1, 0, 0, 36))
for i in (7, 8):
    PLAN['C%02d' % i]['quick'] = PLAN['C%02d' % i]['quick'] + H('match_ring', (1, 0, 2, 0))
    PLAN['C%02d' % i]['thorough'] = PLAN['C%02d' % i]['thorough'] + H('match_ring', (1, 0, 2, 0), (1, 1, 3, 1), (2, 0, 3, 2))
for i in (9, 10):
    for t in ('quick', 'thorough'):
        PLAN['C%02d' % i][t] = PLAN['C%02d' % i][t] + H('self32', ())
PLAN['C14']['quick'] = PLAN['C14']['quick'] + H('match_ring', (1, 0, 2, 0))
PLAN['C14']['thorough'] = PLAN['C14']['thorough'] + H('match_ring', (0, 1, 1, 0), (1, 0, 2, 0), (1, 1, 3, 1))
for t in ('quick', 'thorough'):
    PLAN['C14'][t] += H('p_consume', 5) + H('p_cancel', (1, 1, 0)) + H('p_mass_cancel', (1, 1, 1, 2))
for i in (2, 5, 6, 7, 8, 9):
    for t in ('quick', 'thorough'):
        PLAN['C%02d' % i][t] = PLAN['C%02d' % i][t] + H('match_sweep', (128, 0), (128, 100), (40, 33))
for i in (7, 8, 10):
    for t in ('quick', 'thorough'):
        PLAN['C%02d' % i][t] = PLAN['C%02d' % i][t] + H('match_sweep', (128, 0, 1), (128, 90, 1))
PLAN['C13'] = dict(quick=H('match_full', *QF) + H('match_wide', (0, 8, 0, 61)), thorough=H('match_full', *TF) + H('match_wide', (0, 8, 0, 60), (1, 8, 0, 61), (3, 8, 0, 62)))
BOOKS = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)]
PLAN['C15'] = dict(quick=H('p_cancel', *[(b, a, l) for b, a, l in ((0, 0, 0), (1, 0, 1), (0, 1, 2), (1, 1, 0), (2, 1, 1), (1, 2, 2), (2, 2, 2), (4, 4, 50), (7, 1, 61), (8, 8, 53))]),
                   thorough=H('p_cancel', *[(b, a, l) for b, a in BOOKS for l in (0, 1, 2)] + [(2, 0, 99), (0, 2, 99), (4, 4, 50), (7, 1, 61), (8, 8, 52), (0, 6, 51)]))
PLAN['C16'] = dict(quick=H('p_mass_cancel', (1, 0, 0, 1), (1, 1, 1, 2), (2, 1, 2, 2), (1, 2, 1, 2), (1, 1, 0, 0)) + H('p_mass_cancel_total', (1, 1, 0), (2, 1, 1), (1, 2, 2), (3, 3, 52), (8, 8, 61)) + H('p_mass_cancel', (2, 3, 61, 4)),
                   thorough=H('p_mass_cancel', *[(b, a, (b + 2 * a + k) % 3, k) for b, a in BOOKS if b + a <= 4 for k in (0, 1, 2, 3)])
                   + H('p_mass_cancel', (2, 3, 61, 4), (4, 4, 50, 3))
                   + H('p_mass_cancel_total', *[(b, a, (b + 2 * a) % 3) for b, a in BOOKS], (8, 8, 61), (8, 8, 62), (8, 2, 60), (4, 4, 52)))
PLAN['C17'] = dict(quick=H('slab_remove', (1, 0, 3), (2, 1, 3), (3, 2, 3), (3, 0, 4), (4, 1, 4), (7, 51, 8), (8, 50, 8), (8, 53, 8)) + H('slab_read', (0, 0), (1, 0), (2, 1), (3, 2), (4, 1), (7, 52), (8, 50), (8, 53), (8, 54)) + H('match_wide', (0, 7, 0, 60), (0, 7, 0, 64))
                   + H('match_small', (0, 1, 0, 1), (0, 2, 0, 2), (1, 1, 0, 2)) + H('match_full', (0, 1, 0, 0), (0, 2, 0, 1)),
                   thorough=H('slab_remove', *[(n, l, c) for c in (3, 4, 5) for n in range(1, c + 1) for l in (0, 1, 2)], *[(n, l, 8) for n in (6, 7, 8) for l in (50, 51, 52, 53, 54)])
                   + H('slab_read', *[(n, l) for n in range(0, 5) for l in (0, 1, 2)], *[(n, l) for n in (6, 7, 8) for l in (50, 51, 52, 53, 54)])
                   + H('match_wide', (0, 7, 0, 60), (0, 7, 0, 63), (0, 7, 0, 64), (0, 8, 0, 61), (0, 6, 0, 52))
                   + H('match_small', (0, 0, 0, 0), (0, 1, 0, 1), (0, 2, 0, 2), (0, 3, 0, 0), (0, 3, 0, 1), (1, 1, 0, 2), (2, 1, 0, 1), (2, 2, 0, 0), (0, 2, 0, 99))
                   + H('match_full', (0, 1, 0, 0), (0, 2, 0, 1), (0, 3, 0, 2), (1, 2, 0, 1)))
PLAN['C18'] = dict(quick=H('queue_ops', 1, 2, 3, 5) + H('match_ring', (1, 0, 2, 0), (1, 0, 3, 1)) + H('match_small', (1, 1, 1, 0)),
                   thorough=H('queue_ops', 1, 2, 3, 5, 7) + H('match_small', *[(n, m, q, (n + m + q) % 3) for n in (0, 1, 2) for m in (0, 1) for q in (1, 2, 3, 4)]))
PLAN['C18']['thorough'] += H('match_ring', (1, 0, 1, 0), (1, 0, 2, 0), (1, 0, 3, 1), (1, 0, 4, 0), (1, 0, 5, 1), (1, 1, 3, 2), (2, 0, 3, 0), (2, 0, 4, 1))
PLAN['C19'] = dict(quick=H('p_consume', 3, 5, 9), thorough=H('p_consume', 3, 5, 7, 9))
PLAN['C20'] = dict(quick=H('p_create', 5, 8), thorough=H('p_create', 5, 8))
PLAN['C21'] = dict(quick=H('p_close', (0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0), (2, 0, 1), (0, 2, 2), (3, 0, 2), (0, 3, 0), (2, 1, 0), (1, 3, 1), (0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1)), thorough=H('p_close', *[(b, a, l) for b in range(4) for a in range(4) for l in (0, 1, 2)], (0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1)))
PLAN['C22'] = dict(quick=H('p_auth', 0, 1, 2, 3, 4, 5), thorough=H('p_auth', 0, 1, 2, 3, 4, 5))
PLAN['C23'] = dict(quick=H('p_tick', (0, 0), (1, 0), (0, 1)), thorough=H('p_tick', (0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)))
RQ = [(0, 0, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1), (2, 0, 0, 0), (2, 1, 0, 1), (2, 1, 1, 2), (3, 0, 0, 0), (4, 0, 0, 0), (4, 1, 0, 0), (5, 0, 0, 0)]
RT = RQ + [(0, 0, 1, 0), (0, 1, 1, 0), (0, 2, 1, 0), (1, 0, 0, 1), (1, 2, 2, 1), (1, 3, 1, 1), (2, 2, 1, 3), (2, 2, 2, 4), (4, 0, 1, 0), (4, 1, 1, 0)]
PLAN['C24'] = dict(quick=H('route', *RQ) + H('unknown', (6, 1), (6, 40), (0, 68), (1, 16), (2, 4), (2, 20), (2, 36), (3, 8), (5, 16)),
                   thorough=H('route', *RT) + H('unknown', *[(6, n) for n in range(1, 100)], *[(o, n) for o, m in ((0, 69), (1, 17), (2, 37), (3, 9), (5, 17)) for n in range(1, m)]))
PLAN['C28'] = dict(quick=H('route', (0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 1, 1), (2, 0, 0, 0), (2, 1, 1, 2)),
                   thorough=H('route', *[r for r in RT if r[0] < 3]))
PLAN['C30'] = dict(quick=H('route', *RQ, (0, 0, 1, 0)), thorough=H('route', *[r for r in RT]))
PLAN['C26'] = dict(quick=H('sizes', (0,), (1,), (2, 1), (2, 2), (2, 5)), thorough=H('sizes', (0,), (1,), *[(2, n) for n in range(1, 9)]))
for t in ('quick', 'thorough'):
    PLAN['C26'][t] += H('p_create', 5, 8)
PLAN['C31'] = dict(quick=H('p_cause', 0, 1, 2, 3, 4) + H('match_ring', (1, 0, 2, 0)) + H('match_full', (0, 1, 3, 0)),
                   thorough=H('p_cause', 0, 1, 2, 3, 4) + H('match_ring', (1, 0, 2, 0), (1, 1, 3, 1), (2, 0, 3, 2)) + H('match_full', (0, 1, 3, 0), (1, 2, 3, 1)))
PLAN['C25'] = dict(quick=H('round', ()), thorough=H('round', ()))
PLAN['C29'] = dict(quick=H('p_bbo', *[(b, a, (b + 2 * a) % 3) for b, a in BOOKS[:7]], (7, 8, 51), (8, 8, 54), (8, 8, 53)), thorough=H('p_bbo', *[(b, a, l) for b, a in BOOKS for l in (0, 1, 2)] + [(2, 0, 99), (0, 2, 99), (8, 8, 50), (7, 6, 52)]))
PLAN['C27'] = dict(quick=H('reader', (0, 32, 0), (1, 32, 1), (2, 32, 2), (3, 32, 0), (4, 8, 1), (8, 32, 11), (9, 0, 12)),
                   thorough=H('reader', *[(n, c, l) for n in range(6) for c in (0, 8, 32) for l in (0, 1, 2)], *[(n, c, l) for n in (6, 7, 8, 9) for c in (0, 8, 32) for l in (10, 11, 12)]),
                   outside='books of more than 5 orders (9 with fixed keys, 128 in a few fixed trees), order quantities of 2^61 or more, depths beyond one more than the number of orders; the JavaScript bindings',
                   assume=['the exported functions are read as compiled for x86-64, not for wasm32'])
DEEP = [(n, s, o) for n in (40, 128) for s in (0, 1, 2) for o in (0, 1, 2)]
PLAN['C17']['quick'] += H('slab_deep', *DEEP[9:])
PLAN['C17']['thorough'] += H('slab_deep', *DEEP)
for t in ('quick', 'thorough'):
    PLAN['C29'][t] = PLAN['C29'][t] + H('slab_deep', (128, 0, 3), (128, 1, 3), (128, 2, 3))
for t in ('quick', 'thorough'):
    PLAN['C13'][t] = PLAN['C13'][t] + H('full_deep', *[(s, r) for s in (0, 1, 2) for r in (0, 1, 2, 3)])
    PLAN['C19'][t] = PLAN['C19'][t] + H('consume_deep', (0, 270, 0), (100, 200, 0), (269, 130, 0), (100, 268, 64), (20, 269, 127), (200, 270, 128), (1, 270, 256), (5, 20, 21), (260, 266, 257), (0, 0, 3))
PLAN['C16']['quick'] = PLAN['C16']['quick'] + H('mass_deep', (63, 0, 33, 0), (128, 2, 70, 0), (128, 2, 36, 1), (40, 2, 33, 2))
PLAN['C16']['thorough'] = PLAN['C16']['thorough'] + H('mass_deep', (63, 0, 33, 0), (63, 0, 63, 0), (128, 2, 100, 0), (128, 2, 128, 0), (128, 2, 70, 1), (40, 2, 33, 2), (63, 0, 40, 2))
RD = [(128, 0, 100), (128, 1, 128), (128, 2, 64), (128, 2, 65), (128, 3, 30), (128, 3, 5), (40, 0, 33)]
for t in ('quick', 'thorough'):
    PLAN['C27'][t] = PLAN['C27'][t] + H('reader_deep', *RD)
