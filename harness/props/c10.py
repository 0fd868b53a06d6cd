"""Leaving and failing: what ends, what is kept, what is reported."""
from props import c09

RULE = """The programs of C09, with most of them leaving the node or the graph, raising
(also SystemExit, also inside functions and nested runs) or not compiling. Non-trivial
when a run ended early; distinct by the log of reads."""
ASSUMPTIONS = c09.ASSUMPTIONS
COUNT = {'quick': 900, 'thorough': 30000}
MIN = {'run': 600, 'error says what was raised': 40, 'error says through what': 15,
       'node left early': 25, 'graph left early': 25,
       'error reported': 50, 'syntax error reported': 8,
       'error names node and line': 60, 'error quotes the line': 40,
       'leaving the graph hands over the runtime layer': 25, 'runtime state': 300}


def case(c):
    c09.case(c, .6)
