"""C43: connected inputs follow their sources."""
from fsahist import *
RULE = """
fixed_step_algorithm is followed, with structured values, through histories of additions, connections, disconnections, removals, changes of
factors, initialisation and steps: its own member functions are interpreted over their flow graphs (records, vectors and maps with concrete keys,
symbolic values), the simulators and functions it drives are stand-ins that record what they are asked, and an oracle holds the connections,
the factors, how often each of them has acted, and what has been exposed.
(history) In every history of the list: a variable is exposed on its own simulator for the purpose before it is read or set; whatever is set is
the input of a current connection and gets its source's present value; initialisation sets each simulator up once with the algorithm's times, starts
it once and last, passes initial values along chains and rings of connections before the start and the values after the start afterwards; at the
end of a step exactly the connections that are due carry the source's value, after all simulators were stepped, into functions before and out of
them after their calculation; removed simulators are left alone.
"""
ASSUME = ["tasks given to the thread pool are run exactly once before wait_for_tasks_to_finish returns (C02, C04)",
          "the histories of the list stand for all: at most four simulators and one function, every type, factors up to 4, each kind of connection and its removal"]
def check(c):
    histories(c, c.db, "history")
    c.need("history", 1)
