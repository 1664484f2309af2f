"""The state graphs and trace specifications of each component."""
from engine import Graph, Trace

def vec(n=None, maxa=4, maxb=2, vs=2, maxn=3, maxr=2):
    return dict(Bounded=n is not None, N=n or 0, MaxA=maxa, MaxB=maxb, Vs=set(range(vs)), MaxN=maxn, MaxR=maxr)

GRAPHS = {
    'vector': Graph('vector', 'VectorMC', 'vector', ['vector/E', 'vector/int', 'vector/B3', 'vector/Q'], vec()),
    'fixed0': Graph('fixed0', 'VectorMC', 'vector', ['fixed0/E'], vec(0, 0, 0, vs=1)),
    'fixed1': Graph('fixed1', 'VectorMC', 'vector', ['fixed1/E'], vec(1, 1, 1)),
    'fixed3': Graph('fixed3', 'VectorMC', 'vector', ['fixed3/E', 'fixed3/B3', 'fixed3/Q'], vec(3, 3, 3)),
    'fixed4': Graph('fixed4', 'VectorMC', 'vector', ['fixed4/int'], vec(4, 4, 2)),
}
def vtr(config, n=None, **k):
    return Trace('VectorTrace', 'vector', config, dict(Bounded=n is not None, N=n or 0, UseIds=False, Store=n is None), **k)
TRACES = {
    'vector': [vtr('vector/E'), vtr('vector/int'), vtr('vector/B3')],
    'fixed': [vtr('fixed1/E', 1), vtr('fixed3/E', 3), vtr('fixed4/int', 4), vtr('fixed8/E', 8), vtr('fixed3/B3', 3)],
}

BIG = dict(lim=(300, 100, 4, 120), steps=720, seg=240)
# Sizes beyond 16 bits: few operations, each on many elements.
G = 66000
GIANT = dict(xmx='6g')
TRACES['vectorbig'] = [vtr('vector/E', **BIG), vtr('vector/int', **BIG)]
TRACES['vectorgiant'] = [vtr('vector/int', ops=['resizev %d 2' % G, 'write 65535 1', 'insert1 65536 3', 'write 65999 1', 'erase1 65536', 'copy_ctor', 'eq', 'insertn 3 65540 1', 'eraser 5 65541',
                           'push_back 3', 'resize 65536', 'resize 65537', 'pop_back', 'assignn 65537 3', 'swap', 'reserve 140000', 'push_self 65535', 'assign_ab', 'clear'], **GIANT)]
TRACES['fixedbig'] = [vtr('fixed300/E', 300, lim=(300, 100, 4, 120), steps=600, seg=200), vtr('fixed300/int', 300, lim=(300, 100, 4, 300), steps=600, seg=200)]
TRACES['fixedgiant'] = [vtr('fixed70000/int', 70000, ops=['resizev %d 2' % G, 'write 65535 1', 'insert1 65536 3', 'write 65999 1', 'erase1 65536', 'copy_ctor', 'eq', 'insertn 3 65540 1', 'insertn 65537 65536 3', 'eraser 5 65541',
                           'push_back 3', 'resize 65536', 'resize 65537', 'pop_back', 'assignn 65537 3', 'swap', 'push_self 65535', 'insertn_self 65999 65537 3', 'assign_ab', 'eq', 'resize 69999', 'push_back 1', 'push_back 2', 'resize_self 7 70003', 'clear', 'push_back 1'], **GIANT)]

# --- ttl::list
def lst(cursor=False, maxa=4, maxb=2, vs=2, maxn=2, maxr=2):
    return dict(KnownErase=True, Cursor=cursor, MaxA=maxa, MaxB=maxb, Vs=set(range(vs)), MaxN=maxn, MaxR=maxr)
GRAPHS.update({
    'list': Graph('list', 'ListMC', 'list', ['list/E', 'list/int', 'list/B3'], lst()),
    'list3': Graph('list3', 'ListMC', 'list', ['list/E'], lst(maxa=3, vs=3, maxr=1)),
    'listc': Graph('listc', 'ListMC', 'list', ['list/E+cursor'], lst(True, maxa=3, maxb=1, maxr=1)),
})
def ltr(config, cursor=False, **k):
    return Trace('ListTrace', 'list', config, dict(KnownErase=True, Cursor=cursor, UseIds=False), useids='/E' in config, **k)
TRACES.update({
    'list': [ltr('list/E'), ltr('list/int'), ltr('list/B3')],
    'listbig': [ltr('list/E', **BIG)],
    'listgiant': [ltr('list/int',
        ops=['resizev %d 1' % G, 'write 65535 2', 'write 65536 3', 'copy_ctor', 'eq', 'reverse', 'remove 3', 'splice_range 2 65000 65990', 'move_range 0 65530 65540', 'insertn 1 65537 2',
             'unique', 'splice_all 1', 'remove_if 2', 'resize 65537', 'resize 65536', 'assignn 33000 1', 'copy_ctor', 'write 32999 3', 'merge', 'swap', 'assign_ab', 'clear'], **GIANT)],
    'listc': [ltr('list/E+cursor', True)],
})

# --- singly linked
def sl(kind, cursor=False, mem=False, maxa=4, maxb=2, vs=2, maxn=2, maxr=2, kept=2):
    return dict(Kind=kind, Mem=mem, Cursor=cursor, MaxA=maxa, MaxB=maxb, Vs=set(range(vs)), MaxN=maxn, MaxR=maxr, MaxKept=kept)
GRAPHS.update({
    'forward': Graph('forward', 'SListMC', 'slist', ['forward/E', 'forward/int', 'forward/B3', 'forward/Q'], sl('forward')),
    'forwardc': Graph('forwardc', 'SListMC', 'slist', ['forward/E+cursor'], sl('forward', True, maxa=3, maxb=2, maxr=1)),
    'backward': Graph('backward', 'SListMC', 'slist', ['backward/E', 'backward/int', 'backward/B3'], sl('backward')),
    'backwardc': Graph('backwardc', 'SListMC', 'slist', ['backward/E+cursor'], sl('backward', True, maxa=3, maxb=2, maxr=1)),
    'lazy': Graph('lazy', 'SListMC', 'slist', ['lazy/E', 'lazy/int', 'lazy/B3', 'lazy/Q'], sl('lazy', maxa=3, maxb=2, kept=2)),
    'lazym': Graph('lazym', 'SListMC', 'slist', ['lazy/E+mem', 'lazy/int+mem'], sl('lazy', mem=True, maxa=4, maxb=2, vs=1, kept=4)),
    'lazyc': Graph('lazyc', 'SListMC', 'slist', ['lazy/E+cursor'], sl('lazy', True, maxa=3, maxb=2, maxr=1, kept=1)),
})
def str_(config, kind, cursor=False, mem=False, **k):
    return Trace('SListTrace', 'slist', config, dict(Kind=kind, Mem=mem, Cursor=cursor, UseIds=False), useids='/E' in config, **k)
for k in ('forward', 'backward', 'lazy'):
    TRACES[k] = [str_(k + '/E', k), str_(k + '/int', k), str_(k + '/B3', k)]
    TRACES[k + 'big'] = [str_(k + '/E', k, **BIG)]
    TRACES[k + 'giant'] = [str_(k + '/int', k,
        ops=['insertn 0 %d 1' % G, 'write 65536 2', 'write 65537 3', 'copy_ctor', 'insert1 65535 3', 'erase1 65535', 'eraser 3 65541', 'insertn 2 65537 2', 'swap'] +
            (['reverse', 'assignn 65537 1', 'eq', 'assign_ab', 'eq'] if k != 'lazy' else ['push_back 3', 'roll_head', 'assign_ab', 'pop_front', 'cleanup', 'push_back 1']) +
            (['splice_all 65536', 'copy_ctor', 'splice_range 3 65530 65537', 'move_range 65540 1 65537'] if k == 'forward' else []) + ['clear', 'push_front 1'], **GIANT)]
    TRACES[k + 'c'] = [str_(k + '/E+cursor', k, True)]
TRACES['lazymbig'] = [str_('lazy/int+mem', 'lazy', mem=True, lim=(300, 100, 3, 120), steps=1200, seg=300),
                      str_('lazy/int+mem', 'lazy', mem=True, lim=(3000, 1000, 3, 3000), steps=150, seg=75)]
TRACES['lazymgiant'] = [str_('lazy/int+mem', 'lazy', mem=True, ops=['insertn 0 66000 1', 'erase1 65536', 'eraser 100 65999', 'push_back 1', 'insertn 3 65537 2', 'insertn 50 1000 2', 'clear', 'insertn 0 66900 3', 'clear', 'cleanup',
                        'insertn 0 65537 1', 'copy_ctor', 'clear', 'insertn 0 65538 1', 'roll_head', 'pop_front', 'cleanup', 'push_front 1'], **GIANT)]
TRACES['lazym'] = [str_('lazy/E+mem', 'lazy', mem=True), str_('lazy/int+mem', 'lazy', mem=True)]

# --- ttl::map, ttl::set
def dic(order=0, isset=False, shapes=False, cursor=False, maxa=3, maxb=2, ks=(1, 3, 5), ls=range(7), vs=2, maxr=2, brief=False):
    return dict(Order=order, IsSet=isset, Shapes=shapes, Cursor=cursor, MaxA=maxa, MaxB=maxb, Ks=set(ks), Ls=set(ls), Vs=set(range(1 if isset else vs)), MaxR=maxr, Brief=brief)
def dg(name, configs, **k):
    return Graph(name, 'DictMC', 'dict', configs, dic(**k), w=2, invs=('Inv', 'TreeInv'))
GRAPHS.update({
    'map': dg('map', ['map/E', 'map/long'], maxb=1),
    'mapgt': dg('mapgt', ['map/E+gt'], order=1, maxb=1),
    # two full dictionaries
    'map2': dg('map2', ['map/E', 'map/long'], maxb=3, maxr=0),
    'mapgt2': dg('mapgt2', ['map/E+gt'], order=1, vs=1, maxb=3, maxr=0),
    'set': dg('set', ['set/E', 'set/long'], isset=True, maxa=3, maxb=3),
    'setgt': dg('setgt', ['set/E+gt'], isset=True, order=1, maxa=3, maxb=3),
    'mapc': dg('mapc', ['map/E+cursor'], cursor=True, vs=1, maxr=1),
    'setc': dg('setc', ['set/E+cursor'], cursor=True, isset=True, maxr=1),
    'mapshape': dg('mapshape', ['map/E', 'map/long'], shapes=True, vs=1, maxa=7, maxb=0, ks=range(1, 8), ls=range(9), brief=True),
    'setshape': dg('setshape', ['set/E+gt'], order=1, isset=True, shapes=True, maxa=7, maxb=0, ks=range(1, 8), ls=range(9), brief=True),
})
def dtr(config, cursor=False, **k):
    k.setdefault('lim', (30, 30, 4, 4))
    return Trace('DictTrace', 'dict', config, dict(Order=1 if '+gt' in config else 0, IsSet='set' in config, Shapes=False, Cursor=cursor, UseIds=False),
                 useids='/E' in config, w=2, **k)
TRACES.update({
    'map': [dtr('map/E'), dtr('map/E+gt'), dtr('map/long')],
    'set': [dtr('set/E'), dtr('set/E+gt'), dtr('set/long')],
    'mapbig': [dtr('map/E', lim=(250, 250, 4, 4), steps=1500, seg=750), dtr('map/E', lim=(2500, 250, 4, 4), steps=160, seg=80)],
    'setbig': [dtr('set/E', lim=(250, 250, 4, 4), steps=1500, seg=750), dtr('set/long', lim=(2500, 250, 4, 4), steps=160, seg=80)],
    'mapgiant': [dtr('map/long', ops=['insert_run 0 3 30000 1', 'insert_run 90001 -3 30000 2', 'look 65536', 'erase_run 0 6 12000', 'copy_ctor', 'insert_run 2 3 24000 3', 'eq', 'erase_run 70000 -1 40000',
                                      'look 70001', 'look 0', 'assign_ab', 'erase 90001', 'clear'], **GIANT)],
    'mapc': [dtr('map/E+cursor', True)],
    'setc': [dtr('set/E+cursor', True)],
})

# --- ttl::rbtree
def tree(order=0, shapes=False, cursor=False, maxa=3, maxb=2, ks=(1, 3), ls=range(5), vs=2, brief=False):
    return dict(Order=order, IsSet=False, Shapes=shapes, Cursor=cursor, MaxA=maxa, MaxB=maxb, Ks=set(ks), Ls=set(ls), Vs=set(range(vs)), Brief=brief)
def tg(name, configs, **k):
    return Graph(name, 'TreeMC', 'tree', configs, tree(**k), w=2, invs=('Inv', 'TreeInv'))
GRAPHS.update({
    'tree': tg('tree', ['tree/E', 'tree/long']),
    'treegt': tg('treegt', ['tree/E+gt'], order=1),
    'treec': tg('treec', ['tree/E+cursor'], cursor=True, vs=1),
    'treeshape': tg('treeshape', ['tree/E'], shapes=True, vs=1, maxa=6, maxb=0, ks=range(1, 5), ls=range(6), brief=True),
    'treedup': tg('treedup', ['tree/E', 'tree/long'], shapes=True, vs=1, maxa=10, maxb=0, ks=(1, 2), ls=range(4), brief=True),
})
def ttr(config, cursor=False, **k):
    k.setdefault('lim', (30, 30, 4, 4))
    return Trace('TreeTrace', 'tree', config, dict(Order=1 if '+gt' in config else 0, IsSet=False, Shapes=False, Cursor=cursor, UseIds=False, Structure=True),
                 useids='/E' in config, w=2, **k)
TRACES.update({
    'tree': [ttr('tree/E'), ttr('tree/E+gt'), ttr('tree/long')],
    'treebig': [ttr('tree/E', lim=(150, 150, 6, 4), steps=1200, seg=600), ttr('tree/E', lim=(2500, 150, 6, 4), steps=160, seg=80)],
    'treegiant': [ttr('tree/long', ops=['insert_run 0 3 30000 1', 'insert_run 90001 -3 30000 2', 'insert_equal 65536 1', 'insert_equal 65536 2', 'look 65536', 'remove 65536', 'insert_run 1 3000 30 3', 'erase_run 0 6 12000', 'assign_ba',
                                        'insert_unique 2 1', 'look 90001', 'erase_run 70000 -1 40000', 'look 70001', 'look 0', 'assign_ab', 'clear'], **GIANT)],
    'treec': [ttr('tree/E+cursor', True)],
})

# --- ttl::sorted_vector_map, ttl::vector_map
def vmg(name, configs, kind, order=0, shapes=False, maxa=3, maxb=1, ks=(1, 3, 5), ls=range(7), vs=2, maxp=4):
    return Graph(name, 'VMapsMC', 'vmap', configs, dict(Order=order, IsSet=False, Shapes=shapes, Cursor=False, Kind=kind, MaxA=maxa, MaxB=maxb,
                 Ks=set(ks), Ls=set(ls), Vs=set(range(vs)), MaxP=maxp), w=2)
GRAPHS.update({
    'sorted': vmg('sorted', ['sorted/E', 'sorted/long'], 'sorted'),
    'sortedgt': vmg('sortedgt', ['sorted/E+gt'], 'sorted', order=1, ks=(1, 2, 3), ls=range(5)),
    'sortedcap': vmg('sortedcap', ['sorted/E', 'sorted/long'], 'sorted', shapes=True, maxa=5, maxb=0, ks=range(1, 6), vs=1, maxp=5),
    'vmap': vmg('vmap', ['vector/E', 'vector/int'], 'vector', ks=(0, 1), ls=range(3)),
    'vmap3': vmg('vmap3', ['vector/E'], 'vector', maxa=4, maxb=0, ks=(0, 1, 2), ls=range(4), vs=1),
})
def vmt(config, **k):
    return Trace('VMapsTrace', 'vmap', config, dict(Order=1 if '+gt' in config else 0, IsSet=False, Shapes=False, Cursor=False, Kind=config.split('/')[0], UseIds=False),
                 useids=config.startswith('sorted/E'), w=2, **k)
TRACES.update({
    'sorted': [vmt('sorted/E'), vmt('sorted/E+gt'), vmt('sorted/long'), vmt('sorted/E', lim=(60, 60, 4, 4))],
    'sortedbig': [vmt('sorted/long', lim=(700, 60, 4, 4), steps=400, seg=200), vmt('sorted/E', lim=(700, 60, 4, 4), steps=200, seg=200)],
    'sortedgiant': [vmt('sorted/long', ops=['insert_run 0 1 66000 1', 'insert 70000 2', 'index_set 69000 3', 'look 69000', 'look 65536', 'look 0', 'look 72000', 'insert 69001 1', 'copy_ctor', 'index 65537', 'write 65537 2',
                                            'at 69001', 'insert 69500 3', 'recopy', 'insert_self 65538', 'look 69501', 'clear', 'insert 3 1'], **GIANT)],
    'vmapgiant': [vmt('vector/int', ops=['resize 66000', 'setkey 65999 7', 'look 7', 'insert 7 1', 'setkey 65999 0', 'look 7', 'insert 7 2', 'insert 8 1', 'index_set 8 3', 'look 0', 'look 8', 'write 65537 2', 'copy_ctor', 'erase1 65536', 'swap',
                                         'vinsert 65535 9 1', 'look 9', 'at 9', 'index 10', 'eraser 2 65539', 'resize 3', 'clear', 'insert 0 1'], **GIANT)],
    'vmapbig': [vmt('vector/E', lim=(400, 60, 4, 4), steps=300, seg=150)],
    'vmap': [vmt('vector/E'), vmt('vector/int')],
})


# --- ttl::bitset
def bg(n, ms, maxs):
    return Graph('bits%d' % n, 'BitsMC', 'bits', ['bits/%d' % n], dict(N=n, Dirty=True, Ms=set(ms), MaxS=maxs))
GRAPHS.update({
    'bits0': bg(0, (0, 1), 1),
    'bits1': bg(1, (0, 1, 2, 4, 64), 2),
    'bits2': bg(2, (1, 2, 3, 64), 3),
    'bits3': bg(3, (1, 2, 3, 4, 64), 3),
})
def btr(n, **k):
    k.setdefault('steps', 2500)
    return Trace('BitsTrace', 'bits', 'bits/%d' % n, dict(N=n, Dirty=False), w=1, **k)
TRACES['bits'] = [btr(n) for n in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 193, 256, 257)] + [btr(511, steps=1200), btr(1000, steps=800)]
def nognu(n, **k):
    t = btr(n, **k)
    t.component = 'bits@nognu'
    return t
TRACES['bitsnognu'] = [nognu(33, steps=1500), nognu(64, steps=1500), nognu(193, steps=1500)]

TRACES['bitsgiant'] = [btr(66000, ops=['set 0', 'set 65536', 'set 65999', 'set 16384', 'set 255', 'num', 'ask', 'shl 3', 'ask', 'copy_ctor', 'shr 65530', 'ask', 'or', 'flip 65539', 'ask', 'xor', 'ref_ab 65535 65539', 'ref_flip 32768', 'not',
    'and', 'ask', 'shr3 1', 'shl3 16385', 'conv 66000', 'conv_as 1000', 'flip_all', 'unset 65999', 'ask', 'zero', 'conv_op 66000', 'assign_ab', 'ask', 'flip 65998', 'ask', 'shl 65999', 'reset_all', 'ask', 'zero',
    'set_all', 'ask', 'shr 65536', 'copy_ctor', 'from_str -1 1 0 1 1 0', 'ask', 'and3', 'xor3', 'ask', 'setv 65600 1', 'zero', 'ask'], xmx='6g')]

# --- algorithms
def ag(name, groups, div=1, ediv=None, vs=3, maxn=4, maxp=0, edges=False, far=False):
    return Graph(name, 'AlgoMC', 'algo', ['ptr/int', 'cat/E', 'ptr/E', 'mix/E', 'xim/int', 'ptr/sc', 'ptr/c', 'ptr/il'] + (['ptr/long', 'ptr/double'] if far else []) if div == 1 else ['ptr/P2', 'cat/P2'] if ediv == 1 else ['ptr/K2', 'cat/K2'],
                 dict(Div=div, EDiv=ediv or div, Groups=set(groups), Vs=set(range(vs)), MaxN=maxn, MaxP=maxp, Edges=edges), invs=('Inv', 'OnePass'))
GRAPHS.update({
    'anon': ag('anon', ['non'], maxn=5),
    'anon2': ag('anon2', ['non'], div=2, vs=4, maxn=3),
    'asearch': ag('asearch', ['search'], vs=2, maxn=6, maxp=4, edges=True),
    'asearch3': ag('asearch3', ['search'], vs=3, maxn=4, maxp=2),
    'asearch2': ag('asearch2', ['search'], div=2, vs=4, maxn=3, maxp=2, edges=True),
    'anonp': ag('anonp', ['non'], div=2, ediv=1, vs=4, maxn=3),
    'asearchp': ag('asearchp', ['search'], div=2, ediv=1, vs=4, maxn=3, maxp=2, edges=True),
    'atwop': ag('atwop', ['two'], div=2, ediv=1, vs=4, maxn=2, maxp=3),
    'atwo': ag('atwo', ['two'], vs=2, maxn=4, maxp=4, far=True),
    'atwo2': ag('atwo2', ['two'], div=2, vs=4, maxn=2, maxp=3),
    'amod': ag('amod', ['mod', 'mod2'], maxn=4, maxp=3, edges=False),
    'amod2': ag('amod2', ['mod', 'mod2'], div=2, vs=4, maxn=3, maxp=2),
    'amod6': ag('amod6', ['mod', 'mod2'], vs=2, maxn=6, maxp=1, edges=True),
    'amodp': ag('amodp', ['mod', 'mod2'], div=2, ediv=1, vs=4, maxn=3, maxp=2),
    'asortedp': ag('asortedp', ['sorted'], div=2, ediv=1, vs=4, maxn=4, maxp=2),
    'aminmaxp': ag('aminmaxp', ['minmax'], div=2, ediv=1, vs=4, maxn=4),
    'asorted': ag('asorted', ['sorted'], vs=3, maxn=5, maxp=3, far=True),
    'asorted2': ag('asorted2', ['sorted'], div=2, vs=4, maxn=4, maxp=3),
    'aminmax': ag('aminmax', ['minmax'], vs=3, maxn=5, far=True),
    'aminmax2': ag('aminmax2', ['minmax'], div=2, vs=6, maxn=4),
})
def atr(config, **k):
    k.setdefault('lim', (14, 0, 4, 4))
    return Trace('AlgoTrace', 'algo', config, dict(Div=2 if 'K2' in config or 'P2' in config else 1, EDiv=2 if 'K2' in config else 1), **k)
TRACES['algo'] = [atr(c, steps=4000) for c in ('ptr/int', 'ptr/K2', 'cat/E', 'cat/K2', 'ptr/P2', 'cat/P2', 'ptr/E', 'mix/E', 'ptr/sc', 'ptr/long', 'ptr/double', 'ptr/c', 'ptr/il')] + [atr('ptr/int', lim=(200, 0, 12, 4), steps=600)]
ALGO_GIANT = ['load_run 70000 7000 3 0', 'count 0 70000 2', 'count_if 1 70000 1', 'find 30 70000 3', 'find 0 70000 1', 'search_n 0 70000 7000 2', 'search_n 0 70000 7001 2', 'adjacent_find 6999 69999', 'adjacent_find_p 0 70000 1',
    'adjacent_find_p 0 70000 2', 'is_sorted_until 0 70000', 'max_element 0 70000', 'min_element 7000 70000', 'minmax_element 0 70000', 'all_of 7000 14000 1', 'none_of 0 65537 0', 'search 20 70000 2 2 0 0', 'remove 0 70000 1',
    'load_run 70000 65537 2 1', 'search_n 0 70000 65537 1', 'search_n 0 70000 65538 1', 'count 0 70000 1', 'fill_n 2 66000 3', 'count 1 69990 3', 'search_n_p 0 70000 66000 3 0', 'replace 0 70000 3 0', 'copy_in 4000 70000 0',
    'reverse 0 70000', 'load_run 70000 1 70000 0', 'lower_bound 0 70000 65537', 'upper_bound 0 70000 65535', 'equal_range 0 70000 69999', 'binary_search 0 70000 40000', 'binary_search 0 70000 70001',
    'lower_bound_c 0 70000 32769 1', 'find 0 70000 65536', 'is_sorted 0 70000', 'is_sorted_until 0 70000', 'copy_in 4000 70000 0', 'copy_backward_in 0 66000 70000', 'swap_ranges_in 0 35000 35000', 'reverse 1 69999',
    'copy_n_in 3000 66000 0', 'generate 0 70000 5', 'generate_n 4 65999 1', 'max_element 0 70000', 'min_element 3 70000', 'lower_bound_c 3 3 7 2', 'remove_if 0 70000 0', 'load_run 70000 35000 2 0', 'upper_bound 0 70000 0',
    'equal_range 0 70000 1', 'lower_bound 0 70000 1', 'transform_in 0 70000', 'fill 1 69999 2', 'iter_swap 0 69998', 'replace_if 0 70000 1 0', 'for_each 65530 65545', 'equal4 65000 65003 2 2 2', 'mismatch4 65536 65540 2 2 2 1']
ALGO_FAR = ['far_%s %d %d %d %d' % (o, n, h, l, c) for o in ('lower', 'upper', 'equal', 'search') for n in (1, 7, 8, 9, 15, 16, 17, 33, 1000) for h in sorted({0, n // 2, 7, n - 1, n, n + 3}) for l in (0, 5) for c in (0, 1)]
TRACES['algofar'] = [atr('ptr/int', ops=ALGO_FAR)]
TRACES['algogiant'] = [atr(c, ops=ALGO_GIANT, **GIANT) for c in ('ptr/int', 'mix/E')]

# --- pair and helpers, array
GRAPHS['pair'] = Graph('pair', 'UtilMC', 'util', ['pair/int', 'pair/E', 'pair/mixed', 'pair/B3'], dict(Vs={0, 1, 2}, MaxN=4), w=2)
TRACES['pair'] = [Trace('UtilTrace', 'util', c, {}, w=2, lim=(20, 10, 20, 4)) for c in ('pair/int', 'pair/mixed')]
TRACES['pairgiant'] = [Trace('UtilTrace', 'util', 'pair/int', {}, w=2, ops=['distance 0 150000', 'distance 140000 7', 'distance 65536 0', 'advance 0 65536', 'advance 149999 -140000', 'advance 3 149997', 'iota 3 69000 5 70000', 'iota 0 70000 -35000 70000'])]
for n, vs, cfgs in ((0, 2, ['array0/int']), (1, 3, ['array1/int', 'array1/E']), (2, 3, ['array2/int', 'array2/E']), (3, 3, ['array3/int', 'array3/E', 'array3/B3'])):
    GRAPHS['array%d' % n] = Graph('array%d' % n, 'ArrMC', 'util', cfgs, dict(N=n, Vs=set(range(vs))))
TRACES['array'] = [Trace('ArrTrace', 'util', c, dict(N=n)) for c, n in (('array7/E', 7), ('array20/int', 20), ('array2/E', 2))]
TRACES['arraybig'] = [Trace('ArrTrace', 'util', c, dict(N=300), steps=1500) for c in ('array300/E', 'array300/int')]
TRACES['arraygiant'] = [Trace('ArrTrace', 'util', 'array70000/int', dict(N=70000), ops=['fill 1', 'set 65536 2', 'set_at 65535 3', 'copy_ctor', 'eq', 'set_it 69999 2', 'eq', 'swap', 'ask', 'set_end 65537 1', 'set_data 4464 3',
                        'swap_self', 'assign_ab', 'eq', 'set 4463 3', 'eq', 'fill_self 4463', 'ask', 'init 1 2', 'fill 3', 'ask'], **GIANT)]

# --- every small size against every small count, position and length
import sweeps
TRACES['vectorsweep'] = [vtr(c, ops=sweeps.vector()) for c in ('vector/int', 'vector/E', 'vector/B3')]
TRACES['fixedsweep'] = [vtr('fixed8/E', 8, ops=sweeps.vector(8))] + [vtr(c, 300, ops=sweeps.vector(300)) for c in ('fixed300/int', 'fixed300/E')]
TRACES['listsweep'] = [ltr(c, ops=sweeps.linked('list')) for c in ('list/int', 'list/E')]
for k in ('forward', 'backward', 'lazy'):
    TRACES[k + 'sweep'] = [str_(c, k, ops=sweeps.linked(k)) for c in (k + '/int', k + '/E')]
for k in ('non', 'mod', 'sort'):
    TRACES['algosweep_' + k] = [atr(c, ops=getattr(sweeps, 'algo_' + k)()) for c in ('ptr/int', 'ptr/double' if k == 'mod' else 'ptr/sc', 'ptr/P2', 'cat/E', 'mix/E')]
TRACES['mapsweep'] = [dtr(c, ops=sweeps.tree('insert %d 1', 'erase %d')) for c in ('map/E', 'map/E+gt')]
TRACES['setsweep'] = [dtr(c, ops=sweeps.tree('insert %d 0', 'erase %d')) for c in ('set/E',)]
TRACES['treesweep'] = [ttr(c, ops=sweeps.tree('insert_equal %d 1', 'remove %d', 30)) for c in ('tree/E', 'tree/long')]
TRACES['sortedsweep'] = [vmt(c, ops=sweeps.tree('insert %d 1', '')) for c in ('sorted/E', 'sorted/long')]

# --- what calls take
def wtr(kind, config, component, **k):
    return Trace('WorkTrace', component, config, dict(Kind=kind), **k)
_BIG = dict(lim=(300, 100, 4, 120), steps=1200, seg=240)
TRACES['work'] = [
    wtr('algo', 'cat/E', 'algo', lim=(14, 0, 4, 4)), wtr('algo', 'ptr/E', 'algo', lim=(200, 0, 12, 4)), wtr('algo', 'mix/E', 'algo', lim=(60, 0, 6, 4)),
    wtr('algo', 'cat/E', 'algo', ops=sweeps.algo_non()), wtr('algo', 'mix/E', 'algo', ops=sweeps.algo_mod()), wtr('algo', 'ptr/E', 'algo', ops=sweeps.algo_sort()),
    wtr('vector', 'vector/E', 'vector', **_BIG), wtr('vector', 'vector/E', 'vector', ops=sweeps.vector()), wtr('fixed', 'fixed300/E', 'vector', **_BIG), wtr('fixed', 'fixed8/E', 'vector', ops=sweeps.vector(8)),
    wtr('list', 'list/E', 'list', **_BIG), wtr('list', 'list/E', 'list', ops=sweeps.linked('list')),
    wtr('sorted', 'sorted/E', 'vmap', w=2, lim=(60, 60, 4, 4)), wtr('sorted', 'sorted/E', 'vmap', w=2, ops=sweeps.tree('insert %d 1', ''))]
TRACES['work'] += [wtr('list', k + '/E', 'slist', **_BIG) for k in ('forward', 'backward', 'lazy')] + [wtr('list', k + '/E', 'slist', ops=sweeps.linked(k)) for k in ('forward', 'backward', 'lazy')]
TRACES['work'] += [wtr('tree', 'map/E', 'dict', w=2, lim=(200, 200, 4, 4)), wtr('tree', 'set/E', 'dict', w=2, lim=(200, 200, 4, 4)), wtr('tree', 'tree/E', 'tree', w=2, lim=(200, 200, 4, 4)),
                   wtr('tree', 'map/E', 'dict', w=2, ops=sweeps.tree('insert %d 1', 'erase %d')), wtr('tree', 'set/E', 'dict', w=2, ops=sweeps.tree('insert %d 0', 'erase %d')),
                   wtr('tree', 'tree/E', 'tree', w=2, ops=sweeps.tree('insert_equal %d 1', 'remove %d', 30))]
TRACES['eqsweep'] = [vtr('vector/int', ops=sweeps.equality('vector')), vtr('vector/E', ops=sweeps.equality('vector')), vtr('fixed300/int', 300, ops=sweeps.equality('fixed')), vtr('fixed8/E', 8, ops=sweeps.equality('fixed', 8)),
                     ltr('list/int', ops=sweeps.equality('list')), str_('forward/int', 'forward', ops=sweeps.equality('slist')), str_('backward/int', 'backward', ops=sweeps.equality('slist')),
                     dtr('map/E', ops=sweeps.equality('dict', 14)), dtr('set/E', ops=sweeps.equality('set', 14)),
                     Trace('ArrTrace', 'util', 'array7/E', dict(N=7), ops=sweeps.equality('array', 8, 7)), Trace('ArrTrace', 'util', 'array20/int', dict(N=20), ops=sweeps.equality('array', 21, 20))]
TRACES['swapsweep'] = [vtr(c, ops=sweeps.swaps()) for c in ('vector/int', 'vector/E')] + [ltr('list/int', ops=sweeps.swaps())]
TRACES['fixedswapsweep'] = [vtr(c, 300, ops=sweeps.swaps()) for c in ('fixed300/int', 'fixed300/E')] + [vtr('fixed8/E', 8, ops=sweeps.swaps(8))]
TRACES['work'] += [wtr('vector', 'vector/E', 'vector', ops=sweeps.swaps()), wtr('fixed', 'fixed300/int', 'vector', ops=sweeps.swaps()), wtr('fixed', 'fixed300/E', 'vector', ops=sweeps.swaps()), wtr('list', 'list/E', 'list', ops=sweeps.swaps()),
                   wtr('fixed', 'fixed300/int', 'vector', **_BIG), wtr('fixed', 'fixed300/int', 'vector', ops=sweeps.vector(300)), wtr('vector', 'vector/int', 'vector', ops=sweeps.vector())]
