"""What decides each property: which state graphs are replayed, which histories
are recorded and judged, which kinds of disagreement count."""

import extras

class Check:
    def __init__(self, graphs=(), traces=(), kinds=None, focus=None, configs=None, ids=False, scale=1.0, tscale=1.0, extra=(), level='model_checking', assumptions=(), technique=None, note=None, more=(), variant=''):
        self.variant = variant # the drivers compiled so
        self.more = list(more) # further parts, each with graphs, kinds, focus of its own
        self.graphs, self.traces, self.kinds, self.focus = graphs, traces, kinds, focus
        self.configs, self.ids, self.scale, self.tscale, self.extra, self.level = configs, ids, scale, tscale, extra, level
        self.technique = technique or 'TLA+ specification: TLC state graph replayed transition by transition on the real code, recorded histories judged by TLC'
        self.note = note or 'Exhaustive within the bounds of the state graph (every legal call in every reachable abstract state, plus sampled longer histories), random histories beyond; trusts TLC, the C++ driver and ASan/UBSan.'
        self.assumptions = list(assumptions) or ['g++ 13 with ASan/UBSan compiles the templates faithfully', 'TLC evaluates the specification correctly']

SEQ = ['content', 'reply', 'view', 'range']
COPY = ['copy_ctor', 'assign_ab', 'assign_ba', 'assign_self', 'recopy']
SELF = ['push_self', 'push_front_self', 'push_back_self', 'insert_self', 'insertn_self', 'resize_self', 'remove_self', 'fill_self', 'erase_self']
BITCONV = ['shl', 'shr', 'shl3', 'shr3', 'from_ul', 'from_ull', 'from_str', 'from_str2', 'conv', 'conv_as', 'conv_op', 'num']
BITSET = ['set', 'unset', 'flip', 'setv', 'set_all', 'reset_all', 'flip_all', 'ref_set', 'ref_aa', 'ref_ab', 'ref_flip', 'not', 'and', 'or', 'xor', 'and3', 'or3', 'xor3',
          'and_self', 'or_self', 'xor_self', 'ctor', 'copy_ctor', 'assign_ab', 'assign_self', 'ask', 'zero']
ALG_NON = ['find', 'find_if', 'find_if_not', 'search', 'search_p', 'search_n', 'search_n_p', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'adjacent_find', 'adjacent_find_p', 'for_each',
           'equal3', 'equal4', 'equal3p', 'equal4p', 'mismatch3', 'mismatch4', 'mismatch3p', 'mismatch4p']
ALG_MOD = ['iter_swap', 'swap_ranges', 'swap_ranges_in', 'fill', 'fill_n', 'copy', 'copy_in', 'copy_if', 'copy_n', 'copy_n_in', 'copy_backward', 'copy_backward_in', 'generate', 'generate_n',
           'replace', 'replace_if', 'replace_copy', 'replace_copy_if', 'remove', 'remove_if', 'remove_copy', 'remove_copy_if', 'transform', 'transform2', 'transform_in', 'reverse', 'reverse_copy']
ALG_SORT = ['far_lower', 'far_upper', 'far_equal', 'far_search', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'lower_bound_c', 'upper_bound_c', 'equal_range_c', 'binary_search_c', 'merge', 'is_sorted', 'is_sorted_until',
            'min', 'max', 'minmax', 'min_c', 'max_c', 'minmax_c', 'min_element', 'max_element', 'minmax_element']
CHECKS = {
    'C01': Check(['vector'], ['vector', 'vectorbig', 'vectorgiant', 'vectorsweep'], SEQ),
    'C02': Check(['vector'], ['vector', 'vectorbig', 'vectorgiant', 'vectorsweep'], ['content'], tscale=3),
    'C03': Check(['fixed0', 'fixed1', 'fixed3', 'fixed4'], ['fixed', 'fixedbig', 'fixedgiant', 'fixedsweep', 'fixedswapsweep'], SEQ + ['life']),
    'C04': Check(['list', 'list3'], ['list', 'listbig', 'listgiant', 'listsweep'], SEQ + ['ident'], ids=True, extra=[extras.known_erase]),
    'C05': Check(['forward'], ['forward', 'forwardbig', 'forwardgiant', 'forwardsweep'], SEQ),
    'C06': Check(['backward'], ['backward', 'backwardbig', 'backwardgiant', 'backwardsweep'], SEQ),
    'C07': Check(['lazy'], ['lazy', 'lazybig', 'lazygiant', 'lazysweep'], SEQ),
    'C08': Check(['lazym'], ['lazym', 'lazymbig', 'lazymgiant'], ['content', 'reply', 'leak']),
    'C10': Check(['list3', 'listc', 'forwardc', 'backwardc', 'lazyc', 'mapc', 'setc', 'treec', 'mapshape', 'treedup'], ['listc', 'forwardc', 'backwardc', 'lazyc', 'mapc', 'setc', 'treec', 'mapbig', 'setbig', 'treebig', 'listbig', 'forwardbig', 'backwardbig', 'lazybig', 'listsweep', 'forwardsweep', 'backwardsweep', 'lazysweep', 'mapsweep', 'setsweep', 'treesweep'], ['ident', 'content'], ids=True),
    'C13': Check(['map', 'mapgt', 'set', 'setgt', 'mapshape', 'setshape'], ['map', 'set', 'mapbig', 'setbig', 'mapgiant', 'mapsweep', 'setsweep'], ['content', 'view'] + ['reply'], scale=0.5),
    'C14': Check(['map', 'mapgt', 'set', 'setgt', 'mapshape', 'setshape'], ['map', 'set', 'setbig', 'mapbig', 'mapgiant', 'mapsweep', 'setsweep'], ['reply', 'content'], focus=['look', 'at'], scale=0.5),
    'C15': Check(['treeshape', 'treedup', 'tree', 'mapshape', 'setshape'], ['tree', 'treebig', 'treegiant', 'mapbig', 'setbig', 'mapgiant', 'treesweep', 'mapsweep'], ['balance', 'content'], scale=0.7),
    'C16': Check(['tree', 'treegt', 'treedup', 'treeshape', 'treec'], ['tree', 'treebig', 'treegiant', 'treesweep'], SEQ + ['ident'], ids=True, scale=0.7),
    'C18': Check(['sorted', 'sortedgt', 'sortedcap'], ['sorted', 'sortedbig', 'sortedgiant', 'sortedsweep'], SEQ),
    'C19': Check(['vmap', 'vmap3'], ['vmap', 'vmapbig', 'vmapgiant'], SEQ),
    'C17': Check(['vector', 'listc', 'forwardc', 'backwardc', 'lazyc', 'mapc', 'setc', 'treec', 'mapshape', 'setshape'], ['listc', 'forwardc', 'backwardc', 'lazyc', 'mapc', 'setc', 'treec', 'mapbig', 'setbig', 'treebig', 'vectorbig', 'listbig', 'forwardbig', 'backwardbig', 'lazybig', 'fixedbig', 'sortedbig', 'vectorgiant', 'listgiant', 'vectorsweep', 'listsweep', 'backwardsweep', 'treesweep'], ['iter', 'view', 'range', 'content', 'reply']),
    'C20': Check(['bits0', 'bits1', 'bits2', 'bits3'], ['bits', 'bitsnognu', 'bitsgiant'], ['content', 'reply', 'view', 'eq'], focus=BITSET),
    'C21': Check(['bits0', 'bits1', 'bits2', 'bits3'], ['bits', 'bitsgiant'], ['content', 'reply', 'view'], focus=BITCONV),
    'C22': Check(['anon', 'anon2', 'anonp', 'asearch', 'asearch3', 'asearch2', 'asearchp', 'atwo', 'atwo2', 'atwop'], ['algo', 'algogiant', 'algosweep_non'], ['content', 'reply', 'iter', 'range', 'life'], focus=ALG_NON + ['load', 'drop'], scale=0),
    'C23': Check(['amod', 'amod2', 'amodp', 'amod6'], ['algo', 'algogiant', 'algosweep_mod'], ['content', 'reply', 'iter', 'range', 'life'], focus=ALG_MOD + ['load', 'drop'], scale=0.2),
    'C24': Check(['asorted', 'asorted2', 'asortedp', 'aminmax', 'aminmax2', 'aminmaxp'], ['algo', 'algogiant', 'algofar', 'algosweep_sort'], ['content', 'reply', 'iter', 'range', 'life'], focus=ALG_SORT + ['load', 'drop'], scale=0),
    'C28': Check(extra=[extras.types], technique='TLA+ specification of type terms: TLC enumerates the terms with their traits, each compiled against the real templates',
                 note='Exhaustive for terms up to the depth given; trusts TLC, the program generator and g++.'),
    'C30': Check(extra=[extras.access], technique='TLA+ specification of access paths: TLC enumerates the ways from a container to its elements with what each may modify, each compiled against the real headers',
                 note='Exhaustive for paths up to the depth given; trusts TLC, the program generator and g++.'),
    'C31': Check(['vector', 'fixed3', 'array3', 'list', 'forward', 'backward', 'lazy', 'map', 'setshape', 'treedup', 'sorted', 'vmap', 'bits2', 'pair'],
                 ['vector', 'fixed', 'list', 'forward', 'backward', 'lazy', 'map', 'set', 'tree', 'sorted', 'vmap', 'bits', 'algo'], SEQ + ['eq', 'iter', 'ident', 'life', 'leak', 'balance'], scale=0.1, tscale=0.4, configs=r'/(E|int|gt)$', variant='rev', extra=[extras.heads], technique='TLA+ specification of the programs that include the headers: TLC enumerates orders and ways to compile with what each can use, each program compiled, linked and run',
                 note='Exhaustive for up to two headers in every order, distributed over the ways to compile; trusts TLC, the program generator, g++ and clang.'),
    'C09': Check(['vector', 'fixed0', 'fixed1', 'fixed3', 'list', 'list3', 'forward', 'backward', 'lazy', 'map', 'set', 'mapshape', 'tree', 'treedup', 'sorted', 'sortedcap', 'vmap'],
                 ['vector', 'fixed', 'list', 'forward', 'backward', 'lazy', 'map', 'set', 'tree', 'sorted', 'vmap', 'mapbig', 'vectorbig', 'fixedbig', 'listbig', 'forwardbig', 'backwardbig', 'lazybig', 'sortedbig', 'vmapbig', 'treebig', 'vectorsweep', 'fixedsweep', 'listsweep', 'forwardsweep', 'backwardsweep', 'lazysweep', 'mapsweep', 'setsweep', 'treesweep', 'sortedsweep'], ['life', 'leak'], configs=r'/(E|B3|Q)'),
    'C11': Check(['vector', 'fixed0', 'fixed1', 'fixed3', 'fixed4', 'list', 'list3', 'forward', 'backward', 'lazy', 'map', 'mapgt', 'set', 'setgt', 'mapshape', 'setshape', 'tree', 'treegt', 'treedup', 'sorted', 'sortedcap', 'vmap'],
                 ['vector', 'fixed', 'list', 'forward', 'backward', 'lazy', 'map', 'set', 'tree', 'sorted', 'vmap', 'mapbig', 'setbig',
                 'vectorbig', 'fixedbig', 'listbig', 'sortedbig', 'vmapbig', 'vectorgiant', 'fixedgiant', 'listgiant', 'forwardgiant', 'backwardgiant', 'lazygiant', 'mapgiant', 'treegiant', 'sortedgiant', 'vmapgiant', 'vectorsweep', 'fixedsweep', 'listsweep', 'forwardsweep', 'backwardsweep', 'lazysweep', 'swapsweep', 'fixedswapsweep', 'sortedsweep'], SEQ + ['life', 'leak', 'iter', 'eq', 'balance'], focus=COPY,
                 more=[Check(['bits1', 'bits2', 'array0', 'array1', 'array2', 'array3', 'pair'], ['bits', 'bitsgiant', 'array', 'arraybig', 'arraygiant', 'pair'], SEQ + ['life', 'eq'], focus=COPY)]),
    'C12': Check(['vector', 'fixed0', 'fixed1', 'fixed3', 'fixed4', 'list', 'list3', 'forward', 'backward', 'lazy', 'lazym', 'listc', 'forwardc', 'backwardc', 'lazyc'],
                 ['vector', 'fixed', 'list', 'forward', 'backward', 'lazy', 'vectorbig', 'fixedbig', 'listbig', 'forwardbig', 'backwardbig', 'lazybig', 'vectorgiant', 'fixedgiant', 'listgiant', 'forwardgiant', 'backwardgiant', 'lazygiant', 'vectorsweep', 'fixedsweep', 'listsweep', 'forwardsweep', 'backwardsweep', 'lazysweep', 'swapsweep', 'fixedswapsweep'], SEQ + ['life', 'leak', 'iter', 'eq', 'ident'], focus=['swap', 'swap_self'], ids=True,
                 more=[Check(['array0', 'array1', 'array2', 'array3'], ['array', 'arraybig', 'arraygiant'], SEQ + ['life', 'eq'], focus=['swap', 'swap_self'])]),
    'C25': Check(['vector', 'fixed0', 'fixed1', 'fixed3', 'fixed4', 'list', 'forward', 'backward', 'map', 'map2', 'mapgt2', 'set', 'array0', 'array1', 'array2', 'array3', 'pair'],
                 ['vector', 'fixed', 'list', 'forward', 'backward', 'map', 'set', 'array', 'pair', 'vectorbig', 'fixedbig', 'arraybig', 'vectorgiant', 'fixedgiant', 'listgiant', 'forwardgiant', 'backwardgiant', 'mapgiant', 'arraygiant', 'eqsweep'], ['reply', 'content', 'eq'], focus=['eq']),
    'C29': Check(['vector', 'fixed0', 'fixed1', 'fixed3', 'fixed4', 'list', 'list3', 'forward', 'backward', 'lazy', 'array3', 'map', 'mapgt', 'set', 'setgt', 'mapshape', 'setshape', 'sorted', 'sortedgt', 'vmap'], ['vector', 'fixed', 'list', 'forward', 'backward', 'lazy', 'map', 'set', 'sorted', 'vmap', 'vectorbig', 'fixedbig', 'listbig', 'forwardbig', 'backwardbig', 'lazybig', 'vectorgiant', 'fixedgiant', 'vectorsweep', 'fixedsweep'],
                 SEQ + ['life'], focus=SELF),
    'C26': Check(['array0', 'array1', 'array2', 'array3'], ['array', 'arraybig', 'arraygiant'], SEQ + ['eq']),
    'C32': Check(traces=['work'], kinds=['work'], level='exploration', technique='TLA+ specification of what each call may apply, compare, copy and allocate: recorded histories of the real code, with these counted, judged by TLC',
                 note='Random and scripted histories, each call judged; trusts TLC, the C++ driver and its counting.'),
    'C27': Check(['pair'], ['pair', 'pairgiant'], SEQ + ['iter', 'life']),
}
