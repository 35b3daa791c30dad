"""C10: the error log."""
import z3
from engine import Contract, And, Or, Not, If, Implies
from runner import Group, Task

NOERR = 0
E = {'NoError': 0, 'FileNotFound': -1, 'FileRepeated': -2, 'FileOutOfScope': -3, 'FileNotReadable': -4, 'FileRemote': -5,
     'WatcherFailed': -6, 'Unspecified': -7}
CODE, TEXT = 'glob.efsw::Errors::LastErrorCode', 'glob.efsw::Errors::LastError'


def contracts(w):
    cs = []

    def create_post(c):
        out = [('returns the error it was given', c.res == c.a(0)),
               ('becomes the last error code', c.new(CODE) == c.a(0)),
               ('message contains the details', z3.Contains(c.new(TEXT), c.a(1)))]
        return out
    cs.append(Contract('efsw::Errors::Log::createLastError', 2, modifies=(CODE, TEXT, 'arg:1'), ensures=create_post))
    cs.append(Contract('efsw::Errors::Log::getLastErrorCode', 0, ensures=lambda c: [('returns the last error code', c.res == c.new(CODE))]))
    cs.append(Contract('efsw::Errors::Log::getLastErrorLog', 0, ensures=lambda c: [('returns the last error text', w.lib.equal(w.eng, c.res, c.new(TEXT)))]))
    cs.append(Contract('efsw::Errors::Log::clearLastError', 0, modifies=(CODE, TEXT),
                       ensures=lambda c: [('code reset', c.new(CODE) == NOERR), ('text reset', c.new(TEXT) == w.strlit(''))]))
    cs.append(Contract('efsw_getlasterror', 0, ensures=lambda c: [('C: returns the last error text', w.lib.equal(w.eng, c.res, c.new(TEXT)))]))
    cs.append(Contract('efsw_clearlasterror', 0, modifies=(CODE, TEXT),
                       ensures=lambda c: [('C: code reset', c.new(CODE) == NOERR), ('C: text reset', c.new(TEXT) == w.strlit(''))]))
    return cs


G = Group('errors', contracts, smode='S')
TASKS = [Task(G, n) for n in ('efsw::Errors::Log::createLastError', 'efsw::Errors::Log::getLastErrorCode', 'efsw::Errors::Log::getLastErrorLog',
                              'efsw::Errors::Log::clearLastError')]
