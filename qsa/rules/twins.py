"""C01-C03: every compiled approach computes what its Python sibling computes."""
import re
from ..frontend import AnchorMissing
from ..engine import World, Engine, Effect, PathV, sym
from ..values import Poly
from ..compare import compare_effects, EQUAL, DIFFERENT, UNKNOWN


def words_of(project, ci):
    """identifiers occurring in the modules an implementation is written in"""
    mods = {}
    for c in project.mro(ci):
        mods[c.module.name] = c.module
    out = set()
    todo = list(mods.values())
    for m in todo:
        out |= {x.lstrip('_') for x in re.findall(r'[A-Za-z_]\w*', m.src)}
    return out


class Twin(object):
    def __init__(self, label, py, cy, entries):
        self.label, self.py, self.cy, self.entries = label, py, cy, entries


def compare_pair(rep, world, label, py, cy, entry, atoms, args=((), ()), models=3, model_kw=None, skip=(), rename=None,
                 elph_total=(), ret=False, entry2=None, only=None, setup=None):
    pr = world.proj
    cls = [pr.find_class(*py), pr.find_class(*cy)]
    engs = []
    for k, c in enumerate(cls):
        e = Engine(world, c, atoms=atoms)
        r = e.run(entry if k == 0 or not entry2 else entry2, list(args[k]))
        if ret and isinstance(r, Poly):
            e.effects.append(Effect('RET', (), '=', r, ''))
        engs.append(e)
        rep.count('effects extracted', len(e.effects))
        for nm, fn, where in sorted(set(e.undefined)):
            rep.finding('%s/%s/undefined/%s' % (label, fn, nm), '%s: %s reads the name %s, which nothing defines' % (label, fn, nm), [where], '')
    rep.count('programs')
    lang = {'atoms': set(atoms), 'words1': words_of(pr, cls[0]) | {'RET'}, 'words2': words_of(pr, cls[1]) | {'RET'}}
    out = compare_effects(engs[0].effects, engs[1].effects, (engs[0].no_coherences, engs[1].no_coherences), skip=skip,
                          rename=rename, elph_total=elph_total, models=models, model_kw=model_kw, lang=lang, only=only)
    for o in out:
        name = '%s %s: %s' % (label, entry, o.target)
        if o.status == EQUAL:
            rep.ok(name, '%s, %d/%d terms' % (o.how, o.terms[0], o.terms[1]))
            rep.count('equal by %s' % o.how.split('(')[0].strip())
        elif o.status == UNKNOWN:
            rep.unknown(name, '%s: %s' % (o.how, o.detail))
        else:
            rep.finding('%s/%s/%s' % (label, entry, o.target),
                        '%s: the compiled %s and the Python one give %s different values' % (label, entry, o.target),
                        o.where, o.detail)
    if not out:
        rep.unknown('%s %s' % (label, entry), 'no effect found')
    return out


FIRST = [('pauli', 'c_pauli', 'ApproachPauli'), ('lindblad', 'c_lindblad', 'ApproachLindblad'),
         ('redfield', 'c_redfield', 'ApproachRedfield'), ('neumann1', 'c_neumann1', 'Approach1vN')]
FIRST_ATOMS = {'func_pauli', 'func_1vN', 'func_1vN_elph'}


def tier_models(tier):
    return 3 if tier == 'quick' else 10


def c01(rep, project, tier):
    w = World(project)
    for sub in ('base', 'elph'):
        for x, y, c in FIRST:
            for entry in ('generate_fct', 'generate_kern', 'generate_current'):
                label = '%s.%s' % (sub, c)
                rep.guarded('%s %s' % (label, entry), compare_pair, rep, w, label,
                            ('qmeq.approach.%s.%s' % (sub, x), c), ('qmeq.approach.%s.%s' % (sub, y), c), entry,
                            FIRST_ATOMS, ((), ()), tier_models(tier), None, (), None, ('tLbbp',))
    rep.assume('index maps and density-matrix accessors of both twins mean the same thing (established by C05)')
    rep.assume('elphbaths.tLbbp is compared over ordered pairs of the same charge (equal when all of them are indexed)')


def c02(rep, project, tier):
    w = World(project)
    P = ('qmeq.approach.base.neumann2', 'TermsCalculator2vN')
    C = ('qmeq.approach.base.c_neumann2', 'TermsCalculator2vN')
    kl = [sym('k'), sym('l')]
    n = tier_models(tier)
    for ent, a, b, atoms, ret in (
            ('phi1k_local', kl, kl + [PathV('kh')], {'func_2vN'}, False),
            ('phi1k_iterate', kl, kl + [PathV('kh')], {'func_2vN'}, False),
            ('func_2vN', [sym('Ek'), sym('l'), sym('eta'), PathV('hfkp')],) + (None, set(), True),
            ('iterate', [], [], {'phi1k_local', 'phi1k_iterate', 'get_htransf_phi1k'}, False)):
        rep.guarded('2vN %s' % ent, compare_pair, rep, w, '2vN.TermsCalculator', P, C, ent, atoms, (a, a if b is None else b),
                    n, None, ('kh', 'si'), None, (), ret)
    A1 = ('qmeq.approach.base.neumann2', 'Approach2vN')
    A2 = ('qmeq.approach.base.c_neumann2', 'Approach2vN')
    for ent in ('determine_phi1_phi0', 'generate_current'):
        rep.guarded('2vN %s' % ent, compare_pair, rep, w, '2vN.Approach', A1, A2, ent, {'get_phi1_phi0'}, ((), ()), n)
