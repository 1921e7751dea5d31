"""P05: required parameters and restricted value sets are enforced for every message type."""
from .common import *
from .verify import MessageVerify

MV = MessageVerify()


def base(cls):
    def ob(h):
        m = h.message('m', cls, welltyped=False)
        MV.prove(h, m)
    return ob


for c in all_message_classes():
    obligation('P05', 'Message.verify[%s]' % cname(c), need=('accept',))(base(c))
