"""C12: the regex-driven scanner build against the table-driven one."""
from vlib import *
import twin

NAMES = ('table scanner', 'regex scanner')


def check(prop):
    r = twin.check_twin(prop, vw('std'), vw('regex'), NAMES)
    r.assume = ['Both builds are compared with each other only; that the default build is right is the business of C03, C04, C06 and C08.']
    return r.finish()


def replay(r):
    return twin.replay_pair(r, 'C12', vw('std'), vw('regex'))
