"""C13: the build that keeps empty nodes against the default build."""
from vlib import *
import twin

NAMES = ('default build', 'keep-empty build')


def check(prop):
    r = twin.check_twin(prop, vw('std'), vw('keep'), NAMES)
    r.assume = ['The productions come from /verif/spec/gram.y through bison.']
    if not r.viol and not r.cov['observed_second_build'].get('observed.empty_nodes'):
        raise Inconclusive('the keep-empty build showed no empty node')
    return r.finish()


def replay(r):
    return twin.replay_pair(r, 'C13', vw('std'), vw('keep'))
