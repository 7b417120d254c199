"""Reference: sequences of trails (C09)."""


def node_sequence(topology, node):
    k = topology.node_attribute(node, "_k")
    if k is None:
        raise ValueError("no sequence")
    return k


def edge_sequence(topology, edge):
    return (node_sequence(topology, edge[0]), node_sequence(topology, edge[1]))


def shift_trail(topology, key, sequence):
    assert topology.node_attribute(key, "type") == "_origin"
    if not topology.attributes["_trails"]:
        raise ValueError("no trails")
    for i, node in enumerate(topology.attributes["_trails"][key]):
        topology.node_attribute(node, "_k", sequence + i)


def trail(topology, key):
    return topology.attributes["_trails"][key]


def trails(topology):
    return [topology.attributes["_trails"][key] for key in topology.attributes["_trails"]]


def trails_items(topology, keys):
    return [(key, topology.attributes["_trails"][key]) for key in topology.attributes["_trails"]]


def auxiliary_trails(topology):
    return [topology.attributes["_auxiliary_trails"][key] for key in topology.attributes["_auxiliary_trails"]]


def auxiliary_trails_items(topology, keys):
    return [(key, topology.attributes["_auxiliary_trails"][key]) for key in topology.attributes["_auxiliary_trails"]]


def trail_sequences(topology, key):
    return {node_sequence(topology, node): node for node in topology.attributes["_trails"][key]}


def trails_sequences(topology):
    return {key: trail_sequences(topology, key) for key in topology.attributes["_trails"]}


def sequence_last(topology):
    return max([topology.node_attribute(node, "_k") for node in topology.nodes()])


def number_of_sequences(topology):
    return sequence_last(topology) + 1


def sequences(topology):
    out = []
    for k in range(number_of_sequences(topology)):
        out.append([node for node in topology.nodes() if node_sequence(topology, node) == k])
    return out


def sequences_items(topology, keys):
    out = []
    for k in range(number_of_sequences(topology)):
        out.append((k, [node for node in topology.nodes() if node_sequence(topology, node) == k]))
    return out
