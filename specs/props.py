"""property -> units under contract, harnesses, notes"""
from unit import Unit
from graph import *
from graph2 import *
import util
import db
import awonvm
import pool
import aio
import oceanus
import tethys
import tethys2
import tethys9
import tethys10
import pluto
import diana
import sophos

HARNESS = {
    'graph': dict(src=['lib/tethys/tethys_graph.cpp', 'lib/tethys/tethys_allocator.cpp', 'lib/utils/logger.cpp'], libs=['-lspdlog', '-lfmt'],
                  flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']),
}
HARNESS['util'] = dict(src=[])
HARNESS['db'] = dict(src=['lib/utils/rocksdb_wrapper.cpp', 'lib/utils/utils.cpp', 'lib/utils/logger.cpp'], libs=['-lrocksdb', '-lspdlog', '-lfmt'])
HARNESS['awonvm'] = dict(src=['lib/abstractio/linux_aio_scheduler.cpp', 'lib/abstractio/thread_pool_aio_scheduler.cpp', 'lib/abstractio/scheduler.cpp', 'lib/utils/utils.cpp', 'lib/utils/logger.cpp'], libs=['-laio', '-lspdlog', '-lfmt'])
HARNESS['pool'] = dict(src=[], libs=['-pthread'])
HARNESS['aio'] = dict(src=['lib/abstractio/linux_aio_scheduler.cpp', 'lib/abstractio/thread_pool_aio_scheduler.cpp', 'lib/abstractio/scheduler.cpp', 'lib/utils/utils.cpp', 'lib/utils/logger.cpp'], libs=['-lspdlog', '-lfmt'])
AIOSRC = HARNESS['aio']['src']
HARNESS['oceanus'] = dict(src=['lib/oceanus/cuckoo.cpp'] + AIOSRC, libs=['-laio', '-lspdlog', '-lfmt', '-pthread'])
HARNESS['tethys'] = dict(src=['lib/tethys/tethys_graph.cpp', 'lib/tethys/tethys_allocator.cpp', 'lib/utils/rocksdb_wrapper.cpp'] + AIOSRC, libs=['-lrocksdb', '-laio', '-lspdlog', '-lfmt', '-pthread'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment'])
HARNESS['diana'] = dict(src=['lib/diana/diana_common.cpp', 'lib/utils/rocksdb_wrapper.cpp', 'lib/utils/logger.cpp', 'lib/utils/utils.cpp'], libs=['-lrocksdb', '-lspdlog', '-lfmt', '-pthread'], flags=HARNESS['tethys']['flags'])
HARNESS['sophos'] = dict(src=['lib/sophos/sophos_%s.cpp' % x for x in ('common', 'client', 'server')] + HARNESS['diana']['src'][1:], libs=HARNESS['diana']['libs'], flags=HARNESS['diana']['flags'])
HARNESS['pluto'] = dict(HARNESS['tethys'], src=HARNESS['tethys']['src'] + ['lib/oceanus/cuckoo.cpp', 'lib/pluto/rocksdb_store.cpp'])
FP = FindPath.name


def u_flow():
    return [Unit('graph', c.name, c) for c in (UpdateFlow(), EdgeFlow())]


def u_add():
    return [Unit('graph', c.name, c, label=c.name.split('::')[-1]) for c in (AddEdge('edge'), AddEdge('src'), AddEdge('sink'))]


def u_path():
    return [Unit('graph', FP, FindPath(), {}, timeout=10, label='find_source_sink_path')]


def u_pathnull():
    return [Unit('graph', FP, FindPath(True), {}, timeout=10, label='find_source_sink_path(null)')]


def u_max():
    return [Lemma('sum of zeros', lemma_zero), Lemma('point update', lemma_point), Unit('graph', MaxFlow.name, MaxFlow(), {FP: FindPath()}, timeout=10, label='compute_residual_maxflow')]



def G1(c, callee=(), label=None):
    return Unit('graph', c.name, c, {x.name: x for x in callee}, timeout=10, label=label or c.name.split('::')[-1])


def u_par():
    return [G1(Components()), G1(ParallelMaxFlow(), (Components(), FindPathT()))]


def u_transform():
    return [G1(Transform())]


def u_get():
    return [G1(c) for c in GETTERS + EGETTERS]


def u_alloc():
    return [G1(AllocCtor()), G1(AllocInsert(), (AddEdge('edge'),), label='TethysAllocator::insert')] \
        + [G1(c) for c in (AllocGet('get_stashed_edges', 'stashed_edges'), AllocGet('get_allocation_graph', 'allocation_graph'))]


def u_allocate():
    return [Lemma('weighted point update', lemma_wpoint), G1(Allocate(), (AddEdge('src'), AddEdge('sink'), MaxFlow(), GETTERS[2]), label='TethysAllocator::allocate')]


PROPS = {
    'P01': dict(units=lambda: u_flow() + u_add() + u_max(), harness=['graph'], thorough=lambda: u_path()),
    'P02': dict(units=lambda: u_flow() + u_max() + u_transform() + u_get(), harness=['graph'], thorough=lambda: u_path() + u_par()),
    'P03': dict(units=lambda: u_flow() + u_max() + u_path() + u_par(), harness=['graph']),
    'P04': dict(units=lambda: u_flow() + u_path() + u_pathnull(), harness=['graph']),
    'P05': dict(units=lambda: [G1(GraphCtor())] + u_add() + u_get() + u_transform() + u_max() + u_alloc() + u_allocate(), harness=['graph']),
    'P06': dict(units=lambda: u_add() + u_alloc() + u_allocate(), harness=['graph'], thorough=lambda: u_max()),
    'P07': dict(units=tethys2.p07_units, harness=['tethys']),
    'P08': dict(units=tethys.p08_units, harness=['tethys']),
    'P09': dict(units=tethys9.p09_units, harness=['tethys']),
    'P10': dict(units=tethys10.p10_units, harness=['tethys']),
    'P11': dict(units=oceanus.p11_units, harness=['oceanus']),
    'P12': dict(units=oceanus.p12_units, harness=['oceanus']),
    'P17': dict(units=diana.p17_units, harness=['diana']),
    'P18': dict(units=sophos.p18_units, harness=['sophos']),
    'P13': dict(units=pluto.p13_units, harness=['pluto']),
    'P14': dict(units=lambda: awonvm.units() + awonvm.getters(), harness=['awonvm']),
    'P15': dict(units=db.counter_units, harness=['db']),
    'P16': dict(units=lambda: db.kv_units() + db.list_units(), harness=['db']),
    'P20': dict(units=lambda: util.xor_units() + diana.xor_units(), harness=['util']),
    'P21': dict(units=util.concat_units, harness=['util']),
    'P23': dict(units=aio.units, harness=['aio']),
    'P22': dict(units=pool.units, harness=['pool']),
}
