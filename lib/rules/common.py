"""Names of the library's own interfaces that the rules are anchored on."""
from rule import *
SIM = "cosim::simulator::"
PHASES = {SIM + "setup": "setup", SIM + "do_iteration": "iteration", SIM + "start_simulation": "start", SIM + "do_step": "step"}
TYPES = ("real", "integer", "boolean", "string")
OBS_GET = {"cosim::observable::get_" + t for t in TYPES}
SIM_SET = {SIM + "set_" + t for t in TYPES}
EXPOSE_SET, EXPOSE_GET = "cosim::manipulable::expose_for_setting", "cosim::observable::expose_for_getting"
FUN = "cosim::function::"
FUN_IO = {FUN + p + t for t in TYPES for p in ("get_", "set_")}
FUN_CALC = FUN + "calculate"
ALG = "cosim::algorithm::"
OBS = "cosim::observer::"
MAN = "cosim::manipulator::"
SLV = "cosim::slave::"
TRANSFER = OBS_GET | SIM_SET | FUN_IO | {FUN_CALC}

def live_calls(g, roots):
    return [n for n in g.nodes if n.k == "call" and n in g.live() and g.root(n) in roots]

def is_wait(n):
    """Waiting for handed-off work to finish."""
    if n.k == "enter": return n.d["frame"].fn["q"].endswith("thread_pool::wait_for_tasks_to_finish")
    if n.k == "call":
        fn = n.e.get("fn") or ""
        return fn.endswith("thread_pool::wait_for_tasks_to_finish") or bool(re.search(r"std::(__basic_)?(shared_)?future<.*>::(wait|get)$|std::thread::join$|std::latch::wait$", fn))
    return False

def pool_stop(f):
    return f["q"].startswith("cosim::utility::thread_pool::") and not f["q"].endswith("::submit")
def pool_stop_all(f):
    return f["q"].startswith("cosim::utility::thread_pool::")

def enum_atom(a, q):
    """The other side of an equality with enumerator q, or None."""
    if a[0] == "==":
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y == ("enum", q): return x
    return None
