"""C03: the key directory mirrors the account's keys; mail is encrypted to exactly those devices"""
from m_common import *
import keys_run
NEED = "xk cr de ok xa al ap apc serve quiet restart xend".split()
def run(c):
    exe, pool, sc = setup(c)
    c.assumptions += ["this device's key comes back to the account only by its own upload", "the server reports a key as CREATED only if the device did not list it"]
    n = c.n(500, 6000)
    K = dict(module="KeySyncTrace", cls="Keys", need=NEED)
    campaign(c, exe, pool, sc, dict(), n, "keys come and go", **K)
    campaign(c, exe, pool, sc, dict(clients=3, keys=5, append=8, mine=.05, logout=.2, dropcl=.05), n, "many sessions, many appends", base=50000, **K)
    campaign(c, exe, pool, sc, dict(clients=1, keys=4, mine=.3, logout=1, dropup=.4, die=.5, xno=.2), n, "one session at a time, own key lost, failures", base=90000, **K)
