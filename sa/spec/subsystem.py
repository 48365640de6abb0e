"""Specification of the extracted subsystem, as a program over the supersystem (rf), its state mask and nothing else.
It is never run: the analysis summarises it in the same way as the repository's code and compares the summaries."""
import numpy as np
from bidict import bidict
from collections import defaultdict
from scipy.sparse import dok_matrix


def subsystem_spec(rf, mask):
    system = rf.system
    C, N = system.P.shape

    new_state = {}
    old_state = bidict()
    K = 0
    labels = defaultdict(set)
    for s in range(N - 2):
        if mask[s]:
            old_state[K] = s
            for l in system.labels_by_state[s]:
                labels[l].add(K)
            K += 1

    rows = bidict()
    action_labels = defaultdict(set)
    R = 0
    for r in range(C - 2):
        (s, a) = system.index_by_state_action.inv[r]
        if mask[s]:
            n = old_state.inv[s]
            rows[(n, a)] = R
            for l in system.labels_by_action[(s, a)]:
                action_labels[l].add((n, a))
            R += 1
    rows[(K, 0)] = R
    rows[(K + 1, 0)] = R + 1
    labels[rf.target_label] = {K}
    labels[rf.fail_label] = {K + 1}

    P = dok_matrix((R + 2, K + 2))
    P[R, K] = 1
    P[R + 1, K + 1] = 1
    kept = np.zeros(R)
    for (r, t), p in system.P.items():
        (s, a) = system.index_by_state_action.inv[r]
        if t >= N - 2 or s >= N - 2:
            continue
        if mask[s] and mask[t]:
            n = rows[(old_state.inv[s], a)]
            P[n, old_state.inv[t]] = p
            kept[n] += p

    rewards = None
    if system.reward_vector is not None:
        rewards = np.zeros(R + 2)
    for r, to_target in enumerate(rf.to_target):
        (s, a) = system.index_by_state_action.inv[r]
        if mask[s]:
            n = rows[(old_state.inv[s], a)]
            P[n, K] = to_target
            if system.reward_vector is not None:
                rewards[n] = system.reward_vector[r]
            fail = 1 - (to_target + kept[n])
            if fail > 0:
                P[n, K + 1] = fail
    return P, rows, action_labels, labels, rewards


def mask_spec(rf, certificate):
    C, N = rf.system.P.shape
    mask = np.zeros(N - 2)
    for r in range(C - 2):
        if certificate[r] > 0:
            (s, a) = rf.system.index_by_state_action.inv[r]
            mask[s] = True
    return mask
