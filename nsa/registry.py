"""The checks: property id -> what decides it."""
import os
import sys
import traceback
import driver
from report import Report

CHECKS = {}


def check(pid, explanation):
    def d(f):
        CHECKS[pid] = (f, explanation)
        return f
    return d


LAWRULE = 'every nsa::require of the listed law functions holds on every abstract path (any start state admitted by the law\'s assumptions), no null or destroyed object is accessed, and no exception escapes'


def laws(rep, files, srcs=(), prefixes=('law_',), together=False, **kw):
    """decide the laws of each file; every file is a program of its own unless together"""
    fs = [driver.law(f) for f in files]
    extra = [driver.src(s) for s in srcs]
    groups = [fs] if together else [[f] for f in fs]
    driver.prefetch([g + extra for g in groups])
    work, progs = [], []
    for g in groups:
        prog = driver.load(g + extra, need_clean=g)
        progs.append(prog)
        mine = [(prog, r) for p in prefixes for r in driver.laws_of(prog, prefix=p, files=g)]
        if not mine:
            rep.broken.append('no law found in ' + ', '.join(g))
        work += mine
    rs = list(driver.each_of(work, **kw))
    rep.rule(LAWRULE)
    rep.laws(rs)
    for prog in progs:
        rep.files.update(f.replace('/repo/', '') for f in {prog.fns[i]['file'] for i in prog.fns} if f.startswith('/repo/'))
    return progs, rs


def run(pid):
    f, expl = CHECKS[pid]
    rep = Report(pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        f(rep, tier)
    except driver.Broken as e:
        rep.broken.append(str(e))
    except Exception:
        traceback.print_exc()
        rep.broken.append('internal error')
    return rep.finish(tier, explanation=expl)


@check('C01', 'Abstract interpretation (path-partitioned, affine domain) of laws over ref_ptr entered from arbitrary holder states.')
def c01(rep, tier):
    laws(rep, ['refcount.cpp', 'refconserve.cpp'], prefixes=('law_ref_', 'law_make_'))


@check('C02', 'Abstract interpretation of laws over reference_counted, its control block and weak_ref_ptr.')
def c02(rep, tier):
    laws(rep, ['refcount.cpp'], prefixes=('law_obj_', 'law_weak_'))


@check('C03', 'Abstract interpretation of laws over the scope guards, normal and exceptional exits.')
def c03(rep, tier):
    laws(rep, ['scoped.cpp'])


@check('C04', 'Abstract interpretation of laws over optional and i_optional, std::optional included.')
def c04(rep, tier):
    laws(rep, ['optional.cpp'])


@check('C05', 'Abstract interpretation of laws over variant and i_variant, std::variant included.')
def c05(rep, tier):
    laws(rep, ['variant.cpp'])


@check('C06', 'Abstract interpretation of laws over any and i_any, std::any included.')
def c06(rep, tier):
    laws(rep, ['any.cpp'])


@check('C07', 'Abstract interpretation of laws over gap_vector: concrete small sizes, arbitrary contents, positions and gap placements.')
def c07(rep, tier):
    laws(rep, ['gapvector.cpp'])


@check('C08', 'Abstract interpretation of laws over segmented_array (segments of three): concrete small sizes, arbitrary contents and positions.')
def c08(rep, tier):
    laws(rep, ['segarray.cpp'])


@check('C09', 'Abstract interpretation of laws over the vector, deque and list wrappers and their interfaces: concrete small sizes, arbitrary contents and positions.')
def c09(rep, tier):
    laws(rep, ['wrap_vector.cpp', 'wrap_deque.cpp', 'wrap_list.cpp', 'wrap_vecarray.cpp'])


@check('C10', 'Abstract interpretation of laws over pair and the map, set and hash map families and their interfaces: concrete small sizes, arbitrary keys and values.')
def c10(rep, tier):
    laws(rep, ['assoc_pair.cpp', 'assoc_map.cpp', 'assoc_multimap.cpp', 'assoc_umap.cpp', 'assoc_ummap.cpp', 'assoc_fmap.cpp', 'assoc_key.cpp', 'assoc_set.cpp', 'assoc_multiset.cpp'])


@check('C11', 'Abstract interpretation of laws over string, string_view, quick_string and their interfaces: concrete small lengths, arbitrary characters and positions.')
def c11(rep, tier):
    laws(rep, ['string.cpp', 'quickstring.cpp'])


@check('C12', 'Abstract interpretation of laws over the string utilities against reference definitions: concrete small lengths, arbitrary characters.')
def c12(rep, tier):
    laws(rep, ['strutils.cpp'])


@check('C13', 'Abstract interpretation of laws over the LEB128 encoders for an arbitrary integer.')
def c13(rep, tier):
    laws(rep, ['leb128.cpp'])


@check('C14', 'Abstract interpretation of laws over growable_static_vector around its in-place limit: concrete small sizes, arbitrary contents and positions.')
def c14(rep, tier):
    laws(rep, ['smallvec.cpp'])


EVENT_SRCS = ('task/event.cpp', 'core/lifetime.cpp', 'core/service.cpp', 'core/reference_counted.cpp')


@check('C15', 'Abstract interpretation of laws over event, slot, sink and the event queue of a thread: concrete small numbers of slots, arbitrary arguments and behaviour of slots.')
def c15(rep, tier):
    laws(rep, ['event.cpp'], srcs=EVENT_SRCS)


@check('C16', 'Abstract interpretation of laws over jars and cookie references: concrete small sizes, arbitrary values and choices of items.')
def c16(rep, tier):
    laws(rep, ['jar.cpp'])


@check('C17', 'Abstract interpretation of laws over the service provider and the shared thread-local variables of one thread.')
def c17(rep, tier):
    laws(rep, ['services.cpp'], srcs=('core/service.cpp', 'app/shared_thread_local.cpp'))


@check('C18', 'Abstract interpretation of laws over lifetimes and their flags for every state.')
def c18(rep, tier):
    laws(rep, ['lifetime.cpp'], srcs=('core/lifetime.cpp', 'core/reference_counted.cpp'))


@check('C19', 'Abstract interpretation of laws over settings (no file attached), their settings and values: arbitrary values, small numbers of settings.')
def c19(rep, tier):
    laws(rep, ['settings.cpp'], srcs=EVENT_SRCS + ('app/settings.cpp',))


@check('C20', 'Laws on versions, enumerations, uuids and numeric texts: every part is an unknown, so that each equality and order is decided for all values; texts have arbitrary digits.')
def c20(rep, tier):
    laws(rep, ['values.cpp'])


@check('C21', 'Laws against a reference list of (value, depth, skipped) in preorder: every position of every operation is a separate abstract path with arbitrary values.')
def c21(rep, tier):
    laws(rep, ['tree.cpp'])


@check('C22', 'Laws against a reference array of (value, share, skip before, skip after), for every choice of position.')
def c22(rep, tier):
    laws(rep, ['indexitor.cpp'])


@check('C23', 'component<Data> with arbitrary histories')
def c23(rep, tier):
    laws(rep, ['component.cpp'])


@check('C24', 'intrusive_sort on arbitrary values with a swapper that moves names along')
def c24(rep, tier):
    laws(rep, ['sort.cpp'])


@check('C25', 'ecs::ecs with arbitrary histories; the timer is a stand-in that never fires')
def c25(rep, tier):
    laws(rep, ['entities.cpp'], srcs=['ecs/ecs.cpp', 'ecs/entity.cpp', 'task/event.cpp', 'core/lifetime.cpp', 'core/service.cpp', 'core/reference_counted.cpp'])


@check('C26', 'laws over arbitrary positions for tracked iterators of sizes on both sides of the in-place limit, with an obligation that what is placed in a byte array fits into it')
def c26(rep, tier):
    laws(rep, ['iterators.cpp'])


@check('C27', 'the components of every result are compared, as polynomials of arbitrary components, with the definition')
def c27(rep, tier):
    laws(rep, ['vecmath.cpp', 'vecmath4.cpp'])


@check('C28', 'the functions on boxes with arbitrary corners are compared with their definition in each direction')
def c28(rep, tier):
    laws(rep, ['boxes.cpp', 'boxes4.cpp'])


@check('C29', 'packets fed with arbitrary characters, whole or cut')
def c29(rep, tier):
    laws(rep, ['packets.cpp'])
