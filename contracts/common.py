"""Spec functions shared by the contracts."""
import sys
from pyvc import runner
runner.setup_path()
from pyvc.runner import obligation, OBS
from pyvc.models import all_message_classes

import oidcmsg.message as M
import oidcmsg.exception as X
import oidcmsg.oauth2 as o2
import oidcmsg.oauth2.device_authorization as dev
import oidcmsg.oidc as oi
import oidcmsg.oidc.session as ses
import oidcmsg.oidc.identity_assurance as ida
import oidcmsg.time_util as tu

Message = M.Message


def base_violations(h, m, cls):
    """(missing required parameter, value outside the allowed set) of the declared parameters"""
    missing, bad = [], []
    for a, spec in cls.c_param.items():
        if a == '*':
            continue
        typ, req = spec[0], spec[1]
        if isinstance(typ, tuple):
            typ = typ[0]
        has = h.has(m, a)
        v = h.get(m, a)
        full = has if typ is bool else h.And(has, h.truthy(v))
        if req:
            missing.append(h.Not(full))
        al = cls.c_allowed_values.get(a)
        if al is not None:
            if typ is str or typ is int:
                bad.append(h.And(full, h.Not(h.mem(v, al))))
            elif isinstance(typ, list):
                bad.append(h.And(full, h.Not(h.forall_elems(v, lambda e: h.mem(e, al)))))
    return h.Or(*missing), h.Or(*bad)


def cname(c):
    return c.__module__.replace('oidcmsg.', '').replace('oidcmsg', '') + '.' + c.__name__
