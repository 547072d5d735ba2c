"""helpers for the property lists (props_*.py)"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', rank=50):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, rank=rank))


TRACE = 'TLA+ specification checked by TLC; histories of the real code under enumerated and sampled schedules (deterministic scheduler) validated against it by TLC'
SEQTR = 'TLA+ specification checked by TLC; operation histories of the real code (sampled, with injected faults) validated against it by TLC'
RECS = 'TLA+ specification checked by TLC; inputs and outputs of the real code (enumerated and sampled) judged by the specification in TLC'
SCHED = 'Bounded: few threads; schedules enumerated up to a preemption bound plus random/PCT samples; memory orders are followed with vector clocks on sequentially consistent executions. Trusts TLC, the scheduler shim and the harness.'
INP = 'Bounded: exhaustive over short inputs of a small alphabet plus structured random inputs; sanitizers watch memory safety. Trusts TLC and the harness.'
