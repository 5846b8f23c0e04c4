"""C44: a last-value observer gives the last values."""
import obshist
RULE = """
last_value_observer (and slave_value_provider, which it makes for each simulator) is followed, with structured values, through histories of
simulators added and removed, initialisation and steps; the simulators are stand-ins whose values are told apart by simulator, type, reference
and number of steps taken.
(history) After each of them every query - every type, no reference, one, several in another order than the model description's, repeated ones - gives,
for each reference asked for and in that order, the value which that variable of that simulator had when the simulator last completed a step
or was initialised, and no variable is read without having been exposed for getting on its own simulator.
"""
ASSUME = ["the histories of the list stand for all: two simulators with three variables of each type"]
def check(c):
    obshist.last(c, c.db, "history")
    c.need("history", 1)
