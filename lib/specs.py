"""What decides each property: the harnesses, and what they assume."""
import includes

def U(name, src, *defs, **kw):
    return dict(name=name, src=src, defs=list(defs), **kw)

def M(name, src, *defs, **kw):                          # under MemorySanitizer and UndefinedBehaviorSanitizer
    return U(name, src, *defs, **{'mem': True, 'less': 1, 'tier': 'quick', **kw})

FAULT_RULE = ('An execution is a history of calls in which the explorer decides at every point where an element is '
              'constructed, copied, assigned or compared, or a block allocated, whether that fails. Non-trivial: a failure '
              'was injected; distinct: by contents before, call, and index of the failing point within the call.')

SPECS = {
 'C01': dict(units=[U('vector', 'c01_vector.cpp')]),
 'C02': dict(units=[U('capacity', 'c02_capacity.cpp')]),
 'C03': dict(units=[U('chunk%d' % n, 'c03_deque.cpp', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3, 4, 5)] +
                   [U('chunk1024', 'c03_deque.cpp')]),
 'C04': dict(units=[U('chunk%d' % n, 'c04_deque_iter.cpp', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3, 4, 5)] +
                   [U('chunk1024', 'c04_deque_iter.cpp')]),
 'C05': dict(units=[U('list', 'c05_list.cpp')]),
 'C06': dict(units=[U('forward_list', 'c06_forward_list.cpp')]),
 'C12': dict(units=[U('chunk%d' % n, 'c12_queue.cpp', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3, 4)] +
                   [U('chunk1024', 'c12_queue.cpp')]),
 'C07': dict(units=[U('set', 'c07_tree.cpp')]),
 'C08': dict(units=[U('map', 'c07_tree.cpp', 'MAP')]),
 'C09': dict(units=[U('balance', 'c09_balance.cpp', asan=False)]),
 'C10': dict(units=[U('string', 'c10_string.cpp')]),
 'C11': dict(units=[U('search', 'c11_search.cpp')]),
 'C16': dict(level='fault_enumeration', rule=FAULT_RULE, units=[U('faults', 'c16_faults.cpp')] +
                   [U('chunk%d' % n, 'c16_faults.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C17': dict(units=[U('unique_ptr', 'c17_unique_ptr.cpp')]),
 'C18': dict(units=[U('shared_ptr', 'c18_shared_ptr.cpp')]),
 'C19': dict(units=[U('function', 'c19_function.cpp')]),
 'C13': dict(units=[U('copies', 'c13_copies.cpp'), U('big', 'c13_copies.cpp', 'BIGCHUNKS')] +
                   [U('chunk%d' % n, 'c13_copies.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C14': dict(units=[U('self', 'c14_self.cpp')] +
                   [U('chunk%d' % n, 'c14_self.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C15': dict(units=[U('ledger', 'c15_ledger.cpp'), U('big', 'c15_ledger.cpp', 'BIGCHUNKS')] +
                   [U('chunk%d' % n, 'c15_ledger.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C20': dict(units=[U('streams', 'c20_streams.cpp')]),
 'C30': dict(units=[U('userbuf', 'c30_userbuf.cpp')]),
 'C21': dict(units=[U('memfile', 'c21_memfile.cpp')]),
 'C22': dict(units=[U('output', 'c22_output.cpp')]),
 'C23': dict(units=lambda tier: [U('part%d' % n, 'c23_constant.cpp', 'PART=%d' % n, *(['THOROUGH'] if tier == 'thorough' else []), asan=False, o='-O1', flags=['-fconstexpr-steps=2000000000'])
                                  for n in range(1, 13)] +
                                 [U('chunk%d' % n, 'c23_constant.cpp', 'PART=2', 'CEST_VERIF_CHUNK_SIZE=%d' % n, *(['THOROUGH'] if tier == 'thorough' else []), asan=False, o='-O1', flags=['-fconstexpr-steps=2000000000'])
                                  for n in (2, 3)]),
 'C24': dict(units=[U('swap', 'c24_swap.cpp')]),
 'C25': dict(units=[U('complex', 'c25_complex.cpp')]),
 'C26': dict(units=[U('cmath', 'c26_cmath.cpp', asan=False)]),
 'C27': dict(units=[U('cctype', 'c27_ctype.cpp', asan=False)]),
 'C28': dict(units=[U('part%d' % n, 'c28_algorithms.cpp', 'PART=%d' % n) for n in range(1, 8)] +
                   [U('chunk%d' % n, 'c28_algorithms.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C31': dict(units=[U('part%d' % n, 'c31_iterators.cpp', 'PART=%d' % n) for n in range(1, 5)] +
                   [U('chunk%d' % n, 'c31_iterators.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C32': dict(units=[U('part%d' % n, 'c32_nested.cpp', 'PART=%d' % n) for n in (1, 2, 3, 4, 9)] +
                   [U('chunk%d' % n, 'c32_nested.cpp', 'PART=2', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C33': dict(units=[U('moves', 'c33_moves.cpp')] +
                   [U('chunk%d' % n, 'c33_moves.cpp', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C34': dict(units=[U('apart', 'c34_apart.cpp', asan=False, o='-O1', flags=['-fsanitize=thread', '-pthread']),
                    U('switch', 'c34_switch.cpp', asan=False)]),
 'C35': dict(units=[U('cost', 'c35_cost.cpp')] +
                   [U('chunk%d' % n, 'c35_cost.cpp', 'CEST_VERIF_CHUNK_SIZE=%d' % n) for n in (2, 3)]),
 'C36': dict(units=[M('vector', 'c01_vector.cpp'), M('capacity', 'c02_capacity.cpp'), M('deque2', 'c03_deque.cpp', 'CEST_VERIF_CHUNK_SIZE=2'), M('deque1024', 'c03_deque.cpp'),
                    M('deque_iter', 'c04_deque_iter.cpp', 'CEST_VERIF_CHUNK_SIZE=2'), M('list', 'c05_list.cpp'), M('forward_list', 'c06_forward_list.cpp'),
                    M('set', 'c07_tree.cpp', less=2), M('map', 'c07_tree.cpp', 'MAP', less=2), M('string', 'c10_string.cpp', skip=('from_stream',)), M('search', 'c11_search.cpp'),
                    M('queue', 'c12_queue.cpp', 'CEST_VERIF_CHUNK_SIZE=2'), M('copies', 'c13_copies.cpp', qskip=('pair_set', 'pair_map', 'pair_list', 'far_set', 'far_map', 'pair_vector3', 'pair_string')), M('copies2', 'c13_copies.cpp', 'CHUNKS', 'CEST_VERIF_CHUNK_SIZE=2', qskip=('pair_deque',)),
                    M('self', 'c14_self.cpp'), M('faults', 'c16_faults.cpp', qskip=('set_', 'copying_set', 'copying_map', 'far_set', 'far_map')), M('unique_ptr', 'c17_unique_ptr.cpp'), M('shared_ptr', 'c18_shared_ptr.cpp'),
                    M('function', 'c19_function.cpp'), M('streams', 'c20_streams.cpp'), M('memfile', 'c21_memfile.cpp'),
                    M('swap', 'c24_swap.cpp'), M('complex', 'c25_complex.cpp'), M('cmath', 'c26_cmath.cpp', qskip=('transcendental',)),
                    M('userbuf', 'c30_userbuf.cpp'), M('moves', 'c33_moves.cpp', 'CEST_VERIF_CHUNK_SIZE=2')]),
 'C29': dict(custom=includes.check),
}
