SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


seed('node-eq-by-text', 'C01', [('graph_components.py',
     'return self.variable == other.variable and self.value == other.value',
     'return self.string_id == other.string_id')],
     '''assert ValueNode('a', 1) != ValueNode('a', '1')
assert ValueNode('a_b', 'c') != ValueNode('a', 'b_c')''',
     'two nodes whose variable and value print alike but differ (1 and "1", or an underscore in a name)',
     'value nodes that differ compare equal (with different hashes)')

seed('edge-cache-by-text', 'C02', [('graph_components.py',
     '''        if (endpoints, relation) in self.edges:
            return self.edges[(endpoints, relation)]
        else:
            edge = RelationEdge(endpoints, relation)
            self.edges[(endpoints, relation)] = edge
            return edge''',
     '''        key = next((k for k in self.edges if k[0] == endpoints and str(k[1]) == str(relation)), (endpoints, relation))
        if key in self.edges:
            return self.edges[key]
        else:
            edge = RelationEdge(endpoints, relation)
            self.edges[key] = edge
            return edge''')],
     '''p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {1, '1'})
n = frozenset({p.get_node('a', 1), p.get_node('b', 1)})
assert p.get_edge(n, 1).relation == 1
assert p.get_edge(n, '1').relation == '1'
''',
     'two declared relations that print alike, requested for the same endpoints in one provider',
     'an edge with another relation than the requested one is handed out')

seed('subgraph-ignores-relation', 'C03', [('sample_graph.py',
     'return self.hash.issubset(other.hash)',
     'return self.nodes.issubset(other.nodes) and \\\n            {e.endpoints for e in self.edges}.issubset({e.endpoints for e in other.edges})')],
     '''p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r', 's'})
g = graph(p, (('a', 1), ('b', 1), 'r'))
h = graph(p, (('a', 1), ('b', 1), 's'))
assert not g.is_subgraph(h)
''', 'two graphs with an edge between the same nodes and different relations',
     'a graph counts as a subgraph although its edge is not in the other graph')

seed('refused-edge-stays', 'C04', [('sample_graph.py',
     '''        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

        self._edges.add(edge)
''',
     '''        self._edges.add(edge)
        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

''')],
     '''p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r', 's'})
b = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r')
assert refused(lambda: b.add_relation({('a', 1), ('b', 1)}, 's'))
assert len(b.build().edges) == 1
''', 'a refused second relation between the same endpoints, and a build afterwards',
     'the graph under construction changes although the addition was refused')

seed('one-pass-connectivity', 'C05', [('sample_graph.py',
     '''        trace(next(iter(tracing_map.keys())))
        return len(tracing_map) == len(traced)''',
     '''        start = next(iter(tracing_map.keys()))
        if len(edges) <= 3:
            trace(start)
        else:
            traced.add(start)
            for node, linked in tracing_map.items():
                if node in traced:
                    traced.update(linked)
                elif not linked.isdisjoint(traced):
                    traced.add(node)
                    traced.update(linked)
        return len(tracing_map) == len(traced)''')],
     '''import itertools
nodes = [(v, 1) for v in 'abcdefgh']
p = BuilderComponentsProvider({v: {1} for v in 'abcdefgh'}, {'r'})
for perm in itertools.islice(itertools.permutations(nodes), 0, 40320, 97):
    es = frozenset((frozenset({perm[i], perm[i + 1]}), 'r') for i in range(7))
    assert SampleGraphBuilder.is_edges_connected(es)
''', 'an edge set of at least four edges that iterates in an unlucky order',
     'a connected edge set is reported as not connected')

seed('stale-variables-on-join', 'C06', [('sample_graph.py',
     '''            not_connected = set({})

            for edge in edges:''',
     '''            not_connected = set({})
            held_variables = {n.variable for n in self._nodes}

            for edge in edges:'''), ('sample_graph.py',
     'ep.variable not in {n.variable for n in self._nodes} or ep in self._nodes',
     'ep.variable not in held_variables or ep in self._nodes')],
     '''p = BuilderComponentsProvider({'a': {1, 2}, 'b': {1}}, {'r'})
g = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r').add_relation({('a', 2), ('b', 1)}, 'r').build()
assert refused(lambda: SampleGraphBuilder(p).join_sample(g))
''', 'joining a sample that itself holds two values of one variable, both new to the builder',
     'a sample is accepted although a new node has a variable another node already has')

seed('empty-filter-admits-nothing', 'C07', [('sample_graph.py',
     'if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}',
     'if e.is_endpoint(center) and (relation_filter is None or (e.relation in relation_filter))}')],
     '''p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r'})
g = graph(p, (('a', 1), ('b', 1), 'r'))
assert len(g.neighboring_values(p.get_node('a', 1), set())) == 1
''', 'an empty relation filter', 'neighbours are missing with an empty filter')

seed('falsy-replacement-skipped', 'C09', [('sample_graph.py',
     '(node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)',
     '(node_provider(node.variable, to_replace[node.variable]) if to_replace.get(node.variable) else node)')],
     '''p = BuilderComponentsProvider({'a': {0, 1}, 'b': {1}}, {'r'})
g = graph(p, (('a', 1), ('b', 1), 'r'))
assert g.transform_with_replaced_values({'a': 0}).value_for_variable('a') == 0
''', 'a falsy new value such as 0', 'a replaced variable keeps its old value')

seed('remove-all-tolerates-missing', 'C10', [('sample_set.py',
     '''        for sample in samples.samples():
            self.remove(sample)
        return self''',
     '''        for sample in samples.samples():
            self._samples.pop(sample, None)
        return self''')],
     '''p = BuilderComponentsProvider({'a': {1, 2}}, {'r'})
s = [SampleGraphBuilder(p).build_single_node('a', i) for i in (1, 2)]
b = SampleSetBuilder(p).add(s[0], 1)
assert refused(lambda: b.remove_all(SampleSet(p, {s[1]: 1})))
''', 'removing a set of which a sample is not held', 'removing a sample that is not held is not refused')

seed('value-search-by-variable', 'C13', [('sample_space.py',
     'if values.issubset(s.values()):',
     'if all(s.value_for_variable(var) == val for var, val in values):')],
     '''b = RelationGraphBuilder({'a': {1, 2}, 'b': {1}}, {'r'})
g = b.sample_builder().add_relation({('a', 1), ('b', 1)}, 'r').add_relation({('a', 2), ('b', 1)}, 'r').build()
rg = b.add_outcome(g).build()
assert rg.find_for_values({('a', 1)}).length == 1 and rg.find_for_values({('a', 2)}).length == 1
''', 'an outcome that holds two values of one variable', 'an outcome that contains the requested values is not found')

seed('falsy-value-unmarginalised', 'C15', [('sample_space.py',
     '''                    in_val = outcome.value_for_variable(in_var)
                    if in_var in group_acc:''',
     '''                    in_val = outcome.value_for_variable(in_var)
                    if not in_val:
                        continue
                    if in_var in group_acc:''')],
     '''b = RelationGraphBuilder({'a': {0, 1}, 'b': {1}}, {'r'})
b.add_outcome(b.sample_builder().build_single_node('a', 0), 1)
b.add_outcome(b.sample_builder().build_single_node('a', 1), 3)
assert b.build().marginal_variables_probability() == {'a': {0: 0.25, 1: 0.75}}
''', 'outcomes with a falsy value such as 0', 'the marginal leaves out a value and its count')

seed('evidence-counts-untouched', 'C17', [('conditional_graph.py',
     'in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}',
     'in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes}')],
     '''b = RelationGraphBuilder({'a': {1}, 'b': {1}}, {'r'})
b.add_outcome(b.sample_builder().build_single_node('a', 1), 1)
b.add_outcome(b.sample_builder().build_single_node('b', 1), 3)
rg = b.build()
ag = rg.conditional_graph(rg.sample_builder().build_single_node('a', 1)).activation_graph()
assert {n.variable: dict(n.values) for n in ag.nodes}['a'] == {1: 0.25}
''', 'a kept outcome that does not touch the evidence',
     'the activation of an evidence value counts outcomes that do not contain its node')

seed('factor-partial-overlap', 'C18', [('relation_graph.py',
     'if not aep.isdisjoint(ep):', 'if aep.issubset(ep) or ep.issubset(aep):')],
     '''b = RelationGraphBuilder({v: {1} for v in 'abcd'}, {'r'})
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('a', 1), ('b', 1)}), 'r'), (frozenset({('b', 1), ('c', 1)}), 'r')}))
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('b', 1), ('c', 1)}), 'r'), (frozenset({('c', 1), ('d', 1)}), 'r')}))
assert not b.build().is_factorized()
''', 'two outcomes whose endpoint-variable pairs overlap without one containing the other',
     'a graph with overlapping outcomes is reported factorized')

seed('group-merges-once', 'C19', [('sample_set.py',
     '''        group()
        grouped = {''',
     '''        for _ in range(2):
            group()
        grouped = {'''), ('sample_set.py',
     '''                        group()
                        return
''', '''                        return
''')],
     '''p = BuilderComponentsProvider({v: {1} for v in 'abcdefgh'}, {'r'})
vs = 'abcdefgh'
gs = [graph(p, ((vs[i], 1), (vs[i + 1], 1), 'r'), ((vs[i + 1], 1), (vs[i + 2], 1), 'r')) for i in range(6)]
assert len(SampleSet(p, {g: 1 for g in gs}).group_intersecting()) == 1
''', 'a chain of samples that needs more than two merges', 'linked samples end up in different groups')

seed('equal-counts-lost', 'C20', [('sample_set.py',
     'return sgb.build(), list(self._samples.values())', 'return sgb.build(), list(set(self._samples.values()))')],
     '''b = RelationGraphBuilder({'a': {1}, 'b': {1}, 'c': {1}}, {'r'})
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('a', 1), ('b', 1)}), 'r')}), 2)
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('b', 1), ('c', 1)}), 'r')}), 2)
assert b.build().make_joined().outcomes.length == 4
''', 'two joined outcomes with equal counts above one', 'the joined count is not the product of the counts')

seed('sampling-few-values', 'C22', [('relation_graph.py',
     'index_acc: List[int] = [-1 for _ in range(0,  len(all_endpoints))]',
     'index_acc: List[int] = [-1 for _ in range(0,  len(all_endpoints))]\n        all_endpoints.sort(key=lambda e: len({str(n) for n in e}))\n        indexed_relations = sorted(set(indexed_relations), key=lambda r: str(r))[:2 if len(all_endpoints) > 2 else None]')],
     '''b = RelationGraphBuilder({v: {1} for v in 'abc'}, {'r', 's', 't'})
n = b.generate_all_possible_outcomes().build().outcomes.length
assert n == 3 + 3 * 3 + 3 * 9 + 27, n
''', 'three or more variables together with three or more relations', 'some connected graphs are not generated')

seed('evidence-touch-by-node', 'C14', [('relation_graph.py',
     'if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}',
     'if evidence.is_subgraph(outcome) or evidence.nodes.isdisjoint(outcome.nodes) and \\\n            not any(outcome.have_variable(v) for v in evidence.included_variables if v)}')],
     '''b = RelationGraphBuilder({0: {1, 2}, 'b': {1}}, {'r'})
for i in (1, 2):
    b.add_outcome(b.sample_builder().build_single_node(0, i), i)
rg = b.build()
assert rg.conditional_graph(rg.sample_builder().build_single_node(0, 1)).outcomes.length == 1
''', 'an evidence variable that is falsy, and an outcome with another value of it',
     'an outcome that touches the evidence without containing it is kept')

seed('probability-of-rounds-total', 'C12', [('sample_set.py',
     'return self._samples[sample] / self.length',
     'return self._samples[sample] / sum(c for _, c in {(self._samples[s], c) for s, c in self._samples.items()})')],
     '''p = BuilderComponentsProvider({'a': {1, 2, 3}}, {'r'})
s = [SampleGraphBuilder(p).build_single_node('a', i) for i in (1, 2, 3)]
assert SampleSet(p, {s[0]: 2, s[1]: 2, s[2]: 4}).probability_of(s[2]) == 0.5
''', 'two samples with equal counts', 'the probability is not the count over the total')

seed('copied-builder-shares-nodes', 'C11', [('sample_graph.py',
     'return SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))',
     'return SampleGraphBuilder(self._components_provider, self._name, self._nodes, set(self._edges))')],
     '''import copy
p = BuilderComponentsProvider({'a': {1}, 'b': {1}, 'c': {1}}, {'r'})
b = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r')
c = copy.copy(b)
c.add_relation({('b', 1), ('c', 1)}, 'r')
assert len(b.build().nodes) == 2
''', 'growing a copy of a non-empty builder and building the original afterwards', 'changes of a copied builder show in the original')

seed('unobserved-dedups-counts', 'C16', [('folded_graph.py',
     'return self._number_of_outcomes - sum(self._value_nodes_dict.values())',
     'return self._number_of_outcomes - sum({c for _, c in self.value_nodes})')],
     '''b = RelationGraphBuilder({'a': {0, 1}, 'b': {1}}, {'r'})
b.add_outcome(b.sample_builder().build_single_node('a', 0), 3)
b.add_outcome(b.sample_builder().build_single_node('a', 1), 3)
assert b.build().folded_graph().folded_node('a').unobserved_count() == 0
''', 'two values of a variable with equal counts', 'the unobserved count is too large')

seed('cross-join-dedups-counts', 'C21', [('relation_graph.py',
     'ssb.add(joined_sample, prod(counts))', 'ssb.add(joined_sample, prod({c for _, c in joints_set.items()}))')],
     '''b = RelationGraphBuilder({'a': {1}, 'b': {1}, 'c': {1}}, {'r'})
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('a', 1), ('b', 1)}), 'r')}), 2)
b.add_outcome(b.sample_builder().build_from_edges({(frozenset({('b', 1), ('c', 1)}), 'r')}), 2)
assert b.build().joined_on_variables({'b'}).outcomes.length == 4
''', 'two groups with equal counts above one', 'the joined count is not the product of the counts')

seed('refused-outcome-stays', 'C23', [('relation_graph.py',
     '''        assert count >= 1, \\
            f"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}"

        self._outcomes.add(outcome, count)
        return self''',
     '''        self._outcomes.add(outcome, count)
        assert count >= 1, \\
            f"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}"
        return self''')],
     '''b = RelationGraphBuilder({'a': {1}, 'b': {1}}, {'r'})
o = b.sample_builder().build_single_node('a', 1)
b.add_outcome(o, 3)
assert refused(lambda: b.add_outcome(o, -1))
assert b.build().outcomes.count_of(o) == 3
''', 'an outcome that is refused for its count, and a build afterwards', 'a refused addition changes the accumulated counts')

seed('belt-unwraps-directed', 'C08', [('sample_graph.py',
     'if not relation_filter or edge.relation in relation_filter:',
     "if not relation_filter or getattr(edge.relation, 'relation', edge.relation) in relation_filter:")],
     '''p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r'})
g = SampleGraphBuilder(p).add_directed_relation(('a', 1), ('b', 1), 'r').build()
assert set(g.belt_nodes({p.get_node('a', 1)}, {'r'})) == set()
assert set(g.belt_nodes({p.get_node('a', 1)}, {DirectedRelation('a', 'b', 'r')})) == {p.get_node('b', 1)}
''', 'a directed relation and a relation filter', 'edges are admitted although their relation is not in the filter, and the reverse')
