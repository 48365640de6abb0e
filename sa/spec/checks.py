"""Specification of the checks on models and forms. It is never run: the analysis summarises it like the repository's code and
compares the conditions under which both reject."""
import numpy as np


def model_spec(P, reward_vector):
    for r, s in enumerate(P.sum(axis=1)):
        assert np.round(s, 9) == 1
    for (i, j), p in P.items():
        assert p >= 0
        assert p <= 1
    if reward_vector is not None:
        for i in range(P.shape[0]):
            assert reward_vector[i] >= 0


def dtmc_spec(P, index_by_state_action):
    assert P.shape[0] == P.shape[1]
    if index_by_state_action is not None:
        for s, a in index_by_state_action.keys():
            assert a == 0


def single(system, label):
    states = system.states_by_label[label].copy()
    assert len(states) == 1
    return states.pop()


def absorbing(system, state, row, col):
    successors = list(system.successors(state))
    assert len(successors) == 1
    assert successors[0][0] == state
    succst, succact, p = successors[0]
    assert system.index_by_state_action[(succst, succact)] == row
    assert state == col


def form_spec(system, initial_label, target_label, fail_label):
    assert len({initial_label, target_label, fail_label}) == 3
    init, target, fail = single(system, initial_label), single(system, target_label), single(system, fail_label)
    absorbing(system, target, system.C-2, system.N-2)
    absorbing(system, fail, system.C-1, system.N-1)
    fail_mask = np.zeros(system.N, dtype=bool)
    fail_mask[fail] = True
    fwd_mask = system.reachable_mask({init}, "forward")
    assert (fwd_mask | fail_mask).all()
    bwd_mask = system.reachable_mask({target}, "backward")
    assert (bwd_mask ^ fail_mask).all()


def reward_form_spec(system, initial_label, target_label):
    assert system.reward_vector is not None
    assert len({initial_label, target_label}) == 2
    init, target = single(system, initial_label), single(system, target_label)
    absorbing(system, target, system.C-1, system.N-1)
    fwd_mask = system.reachable_mask({init}, "forward")
    assert fwd_mask.all()
    bwd_mask = system.reachable_mask({target}, "backward")
    assert bwd_mask.all()
    mecs, proper, count = system.maximal_end_components()
    assert sum(proper) == 1
    assert proper[mecs[target]] == 1


def reward_reachform_spec(reachform):
    assert reachform.system.reward_vector is not None
    fail_mask = np.zeros(reachform.system.N, dtype=bool)
    fail_mask[reachform.fail_state_idx] = True
    bwd_mask = reachform.system.reachable_mask({reachform.fail_state_idx}, "backward")
    assert (bwd_mask == fail_mask).all()
    mecs, proper, count = reachform.system.maximal_end_components()
    assert sum(proper) == 2


def reduce_spec(system, initial_label, target_label, new_target_label, new_fail_label):
    assert new_target_label not in system.states_by_label.keys()
    assert new_fail_label not in system.states_by_label.keys()
    assert len(system.states_by_label[target_label]) > 0
    assert len(system.states_by_label[initial_label]) == 1
