"""Specification of the reduction to a reachability form, over the system, the requested labels and the numbering of the kept
states (sigma). It is never run: the analysis summarises it in the same way as the repository's code and compares both."""
import numpy as np
from bidict import bidict
from collections import defaultdict
from scipy.sparse import dok_matrix


def reduction_spec(system, initial_label, target_label, new_target_label, new_fail_label, sigma):
    targets = system.states_by_label[target_label]
    initial = list(system.states_by_label[initial_label])[0]
    reaching = system.reachable_mask(targets, "backward")
    reached = system.reachable_mask(set([initial]), "forward", blocklist=targets)

    state_map = bidict()
    pair_map = bidict()
    index = bidict()
    label_to_states = defaultdict(set)
    label_to_actions = defaultdict(set)
    R = 0
    for r in range(system.C):
        (s, a) = system.index_by_state_action.inv[r]
        if reaching[s] and reached[s]:
            state_map[s] = sigma[s]
            pair_map[(s, a)] = (sigma[s], a)
            index[(sigma[s], a)] = R
            for l in system.labels_by_state[s]:
                label_to_states[l].add(sigma[s])
            for l in system.labels_by_action[(s, a)]:
                label_to_actions[l].add((sigma[s], a))
            R += 1
    n = len(state_map)
    index[(n, 0)] = R
    index[(n + 1, 0)] = R + 1
    label_to_states[new_target_label].add(n)
    label_to_states[new_fail_label].add(n + 1)

    rewards = None
    if system.reward_vector is not None:
        rewards = np.zeros(R + 2)
    P = dok_matrix((R + 2, n + 2))
    kept = np.zeros(system.C)
    k = 0
    for r in range(system.C):
        (s, a) = system.index_by_state_action.inv[r]
        if reaching[s] and reached[s]:
            if system.reward_vector is not None:
                rewards[k] = system.reward_vector[r]
            if s not in targets:
                for e in system.successors(s):
                    if e[1] == a and reaching[e[0]] and reached[e[0]]:
                        P[k, sigma[e[0]]] = system.P[r, e[0]]
                        kept[r] += system.P[r, e[0]]
            k += 1
    m = 0
    for r in range(system.C):
        (s, a) = system.index_by_state_action.inv[r]
        if reaching[s] and reached[s]:
            target = 1 if s in targets else 0
            if target > 0:
                P[m, n] = target
            fail = 1 - (target + kept[r])
            if fail > 0:
                P[m, n + 1] = fail
            m += 1
    P[R, n] = 1
    P[R + 1, n + 1] = 1
    return P, index, label_to_actions, label_to_states, rewards, state_map, pair_map


def fromsystem_spec(system, initial_label, target_label):
    P = system.P.copy()
    P.resize((system.C + 1, system.N + 1))
    P[system.C, system.N] = 1
    index = system.index_by_state_action.copy()
    index[(system.N, 0)] = system.C
    label_to_states = {l: set(states) for l, states in system.states_by_label.items()}
    label_to_states["rf_fail"] = {system.N}
    return P, index, label_to_states
