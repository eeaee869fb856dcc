"""Source of properties.jsonl: python3 tools/props.py"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": [observe],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


G, T = "pybbn/graph/", "pybbn/pptc/"
INF = [
    T + f
    for f in (
        "inferencecontroller.py",
        "potentialinitializer.py",
        "moralizer.py",
        "triangulator.py",
        "transformer.py",
        "initializer.py",
        "propagator.py",
        "evidencecollector.py",
        "evidencedistributor.py",
    )
] + [G + "potential.py", G + "jointree.py"]

p(
    "C01",
    "Exact inference returns the true prior marginals of every network",
    "For every valid Bayesian network, running exact inference without evidence yields, for every "
    "variable and value, exactly the marginal probability under the product of the conditional "
    "probability tables (up to floating-point rounding). CPT rows are read in the order in which the "
    "parents' edges were added, last parent fastest, the node's own values fastest of all.",
    ["inputs", "programs"],
    "Every directed acyclic structure (connected or not), every number of values per variable, every "
    "CPT including zero and deterministic entries, every identifier and insertion order.",
    "The tests pin a handful of networks (Huang, chains, a few textbook examples), nearly all connected, "
    "binary and with ids equal to the insertion order.",
    INF,
    [
        ("moralise, triangulate, build join tree, propagate", T + "inferencecontroller.py apply"),
        ("CPT to potential", G + "potential.py get_potential"),
        ("message passing", T + "propagator.py, evidencecollector.py, evidencedistributor.py"),
    ],
    "marginals read from the join tree by node and by name",
)
p(
    "C02",
    "Posteriors equal Bayes' rule for every admissible evidence",
    "After evidence of any kind (observation, finding, virtual) on any subset of the variables is set on "
    "a join tree, every marginal equals the corresponding posterior computed from the full joint "
    "distribution multiplied by the evidence likelihoods and renormalised, whenever the evidence has "
    "positive probability. This includes evidence set one variable at a time and in one batch.",
    ["inputs", "programs"],
    "Every network, every subset of observed variables, every combination of hard, partial and soft "
    "likelihoods with positive total probability.",
    "Tests check a few hard observations on fixed networks; soft and partial evidence on several nodes, "
    "zero CPT entries and disconnected parts are not combined.",
    INF,
    [
        ("evidence update and re-propagation", G + "jointree.py update_evidences"),
        ("absorption with zero handling", G + "potential.py divide, multiply"),
    ],
    "marginals read from the join tree after each evidence update",
)
p(
    "C03",
    "Posteriors depend only on the evidence now in force, not on its history",
    "After any sequence of evidence operations (observing, toggling an observation off by repeating it, "
    "soft and partial evidence, retracting one, several or all, batches, contradictory evidence, rejected "
    "calls), the marginals equal those of a fresh join tree given only the evidence currently in force. "
    "Evidence that is impossible together never breaks the tree: once it is withdrawn, the marginals are "
    "right again; a rejected call changes nothing. Every accepted call returns the tree, so that calls chain.",
    ["histories"],
    "Every finite history of evidence operations over the operation alphabet.",
    "Tests perform at most a few updates in a row on one tree; stale-state errors depend on which evidence "
    "preceded which.",
    [G + "jointree.py", T + "inferencecontroller.py", T + "initializer.py", T + "propagator.py"],
    [
        ("change detection between old and new evidence", G + "jointree.py get_change_type, compare"),
        ("toggle", G + "jointree.py set_observation"),
        ("listener re-initialises and re-propagates", T + "inferencecontroller.py evidence_retracted"),
    ],
    "marginals after every operation of the history",
    [("evidence table", "likelihood currently in force per node and value", G + "jointree.py evidences"),
     ("potentials", "clique and separator tables after propagation", G + "jointree.py potentials")],
)
p(
    "C04",
    "Evidence is normalised as documented for each evidence type",
    "Virtual likelihoods are clamped to [0,1]; finding likelihoods become 1 if positive and 0 otherwise, "
    "and an all-zero finding becomes no evidence; an observation puts 1 on a value of highest likelihood "
    "and 0 on all others; withdrawn evidence puts 1 on every value; values not mentioned count as 0 "
    "before this. The posteriors reflect exactly the normalised likelihoods.",
    ["inputs"],
    "Every assignment of likelihoods from a grid (negative, zero, fractional, one, above one, absent) to "
    "the values of variables with 2 and 3 values, in every order of mention, for every evidence type.",
    "Tests check single examples of each evidence type and never that the posteriors follow.",
    [G + "jointree.py"],
    [("validation of evidence by type", G + "jointree.py Evidence.validate")],
    "likelihoods stored with the evidence, and posteriors of the network",
)
p(
    "C05",
    "The join tree is structurally valid for every network",
    "The cliques are exactly the maximal cliques of a chordal graph that contains the moral graph of the "
    "network (so every variable appears with all its parents in some clique), the clique graph has no "
    "cycle and connects exactly what the network connects, every separator is the intersection of its two "
    "cliques, and the cliques that contain any one variable are connected through separators containing it.",
    ["inputs", "programs"],
    "Every directed acyclic structure, numbering and weight (number of values) pattern.",
    "Tests compare clique lists of two or three fixed graphs.",
    [T + "moralizer.py", T + "triangulator.py", T + "transformer.py", G + "jointree.py", G + "node.py"],
    [
        ("moral graph", T + "moralizer.py moralize"),
        ("elimination order and fill-in", T + "triangulator.py triangulate"),
        ("maximum spanning forest of separators", T + "transformer.py transform"),
    ],
    "cliques, separators and edges of the join tree; edges of the moral graph",
)
p(
    "C06",
    "The join tree is calibrated whatever the order of the messages",
    "After propagation every clique's table, normalised, is the true posterior joint distribution of its "
    "variables, so any two cliques agree on what they share. This holds for every order in which the "
    "neighbours of a clique are visited and for every value of the interpreter's hash seed.",
    ["schedules", "inputs"],
    "Every order of visiting the neighbours of every clique and separator of the explored trees, with and "
    "without evidence; several hash seeds.",
    "Tests run with one fixed hash seed, hence one message order per network, and read only single-variable "
    "marginals from one clique each.",
    [T + "propagator.py", T + "evidencecollector.py", T + "evidencedistributor.py", G + "potential.py"],
    [
        ("collect and distribute phases", T + "propagator.py propagate"),
        ("one message", G + "potential.py pass_single_message"),
    ],
    "clique tables marginalised over clique members",
)
p(
    "C07",
    "Re-parameterising a join tree equals rebuilding it and spares the original",
    "Re-applying a join tree with new CPTs for any subset of its variables gives a tree that answers, with "
    "and without evidence, exactly as a tree built from scratch from a network with those CPTs and no "
    "evidence. The original tree, its evidence and the original network keep giving the answers they gave "
    "before, also after a chain of such re-applications and after evidence is set on any of the trees.",
    ["programs", "histories"],
    "Every explored network, every subset of replaced CPTs, every interleaving of evidence and "
    "re-application up to the depth bound.",
    "One test replaces CPTs once on one network and compares a few numbers.",
    [T + "inferencecontroller.py", G + "jointree.py", T + "potentialinitializer.py"],
    [("copy, replace CPTs, re-initialise", T + "inferencecontroller.py reapply"),
     ("CPT replacement", G + "jointree.py update_bbn_cpts")],
    "marginals of the new and of the old tree",
)
p(
    "C08",
    "A join tree survives serialisation",
    "A join tree converted to a dictionary (directly or through JSON text), converted back and "
    "re-initialised has the same cliques, separators and connections, and gives the same marginals with "
    "and without evidence, as the tree it came from. This also holds for networks of several components "
    "and when the round trip is repeated.",
    ["programs", "inputs"],
    "Every explored network structure, numbering and CPT family, direct and through JSON, once and twice.",
    "Tests round-trip one or two connected networks and compare a few numbers.",
    [G + "jointree.py", T + "inferencecontroller.py", T + "potentialinitializer.py"],
    [("conversion", G + "jointree.py to_dict, from_dict"),
     ("re-initialisation", T + "inferencecontroller.py apply_from_serde")],
    "structure and marginals of the restored tree",
)
p(
    "C09",
    "A network survives the dictionary and JSON formats",
    "Writing a network to a dictionary or JSON file and reading it back yields a network with the same "
    "variables (identifier, name, values in order), the same edges with the same parent order for every "
    "child, the same CPTs, and the same inference results. Repeating the round trip changes nothing more, "
    "and writing does not modify the network.",
    ["programs", "inputs"],
    "Every explored structure, edge insertion order, node insertion order, numbering and CPT.",
    "One or two fixed networks are round-tripped; the parent order is never permuted.",
    [G + "dag.py"],
    [("conversion", G + "dag.py Bbn.to_dict, from_dict, to_json, from_json")],
    "the network read back and its marginals",
)
p(
    "C10",
    "A network survives the CSV format",
    "Writing a network to CSV and reading it back yields the same variables, values, edges, parent orders, "
    "CPTs (to the last digit) and inference results, for names and values that the format can hold "
    "(non-empty text without surrounding blanks).",
    ["programs", "inputs"],
    "Every explored structure, edge and node insertion order, numbering, CPT, and awkward but admissible names.",
    "One fixed network is round-tripped.",
    [G + "dag.py"],
    [("conversion", G + "dag.py Bbn.to_csv, from_csv")],
    "the network read back and its marginals",
)
p(
    "C11",
    "No sequence of edge insertions makes a directed graph cyclic",
    "Directed acyclic graphs and Bayesian networks never contain a directed cycle, self-loop, duplicate or "
    "two-way edge, whatever edges are offered in whatever order. An offered directed edge is accepted exactly "
    "if it is new and closes no cycle, an offered undirected edge never, and a refused edge changes nothing "
    "(beyond registering its end points).",
    ["histories"],
    "Every sequence of offered edges, explored to the fixpoint of reachable graphs on up to 4 nodes.",
    "Tests offer a few bad edges to a few graphs.",
    [G + "dag.py", G + "graph.py"],
    [("admission of an edge", G + "dag.py __shouldadd__, PathDetector")],
    "edges, parents and children after every insertion",
)
p(
    "C12",
    "Graph queries agree with the history of additions and removals",
    "After any sequence of node and edge additions and node removals, the nodes, edges, neighbours, "
    "adjacency tests, parents and children of a graph are exactly those of the mathematical graph that the "
    "sequence describes; in particular a removed node leaves no edge, neighbour or parent entry behind, and "
    "a network edited this way can still be inferred on. The networkx view shows the same graph. (Mixed graphs "
    "are offered edges of one type only between any two nodes.) Additions return the graph, so that calls chain.",
    ["histories"],
    "Every operation sequence over 3 nodes (4 for most kinds) explored to the fixpoint of reachable graphs, for "
    "undirected, mixed, directed, partially directed graphs and Bayesian networks.",
    "Tests add and remove a node once or twice.",
    [G + "graph.py", G + "dag.py", G + "edge.py"],
    [("bookkeeping", G + "graph.py add_edge, remove_node"),
     ("parent lists", G + "dag.py Bbn")],
    "all query methods after every operation",
)
p(
    "C13",
    "Samples are drawn from the network's own (conditional) distribution",
    "Driven by ideal uniform random numbers, the sampler returns every complete assignment consistent with "
    "the evidence with exactly its probability under the network conditioned on the evidence - the "
    "distribution that exact inference reports. This holds for every structure, parent order, numbering and "
    "number of values.",
    ["inputs", "programs"],
    "Every combination of random draws on a grid fine enough to be exact, for every explored network and "
    "evidence set of positive probability.",
    "Tests compare frequencies of 10,000 samples of a few chains with one seed, to one decimal.",
    ["pybbn/sampling/sampling.py"],
    [("inverse-CDF tables", "pybbn/sampling/sampling.py Table"),
     ("rejection", "pybbn/sampling/sampling.py LogicSampler.get_samples")],
    "multiset of samples over all draws",
)
p(
    "C14",
    "Sampling always yields the requested number of complete, consistent samples",
    "For evidence of positive probability the sampler returns exactly the requested number of samples "
    "(including none), each assigning one of its own values to every variable, agreeing with the evidence, "
    "and having positive probability under the network - whatever the structure, the order of insertion, the "
    "identifiers and the random numbers, including draws at the ends of the unit interval.",
    ["inputs", "programs"],
    "Every explored structure with every node numbering and insertion order, every single and pairwise "
    "evidence, boundary draws.",
    "Tests cover three orderings and one evidence.",
    ["pybbn/sampling/sampling.py"],
    [("parents before children", "pybbn/sampling/sampling.py __topological_sort__"),
     ("lookup of a value", "pybbn/sampling/sampling.py Table.get_value")],
    "the returned samples",
)
p(
    "C15",
    "Sampling is reproducible and leaves no trace",
    "With the same network, evidence, number and seed, sampling returns the same samples, from the same or "
    "another sampler and whatever was sampled before; a shorter request is a prefix of a longer one. "
    "Neither the network, the evidence passed in nor earlier returned samples are changed.",
    ["histories"],
    "Every sequence of sampling calls over a small alphabet of evidence, counts and seeds up to the depth bound.",
    "Tests call each sampler once.",
    ["pybbn/sampling/sampling.py"],
    [("seeding", "pybbn/sampling/sampling.py get_samples")],
    "the returned samples, the evidence dictionaries and the network",
)
p(
    "C16",
    "A network learned from data reproduces the empirical conditional frequencies",
    "Given a structure and a data table, every entry of the learned network is the relative frequency of "
    "the value among the rows with that parent combination (uniform if there is none), attached to the right "
    "parent combination for inference; the structure, names and sorted values are those given. This does not "
    "depend on the order of rows, columns, structure entries or parent lists, nor on what the names and "
    "values look like. Rows with a missing value of the variable or of its parents do not count for it.",
    ["inputs", "programs"],
    "Every data table up to the row bound for every explored structure, every order of columns, entries and "
    "parents, several kinds of names and values.",
    "Tests learn one structure from one table of strings.",
    [G + "factory.py"],
    [("counting", G + "factory.py Factory.from_data")],
    "CPT of every node looked up by parent combination, and marginals",
)
p(
    "C17",
    "Importing a libpgm network preserves its distribution",
    "A network imported from the libpgm form (dictionary, JSON text or object) has the given variables, "
    "identifiers, values and parents, and exact inference on it yields the distribution defined by the "
    "libpgm tables, whatever the order of vertices, table entries and parents.",
    ["programs", "inputs"],
    "Every explored structure, vertex order, parent order and number of values.",
    "Tests import two or three fixed dictionaries.",
    [G + "factory.py"],
    [("import", G + "factory.py Factory.from_libpgm_discrete_object")],
    "nodes, edges and marginals of the imported network",
)
p(
    "C18",
    "Generated structures are always connected, acyclic and of the promised kind",
    "Whatever the random numbers, the generator of singly-connected networks returns a connected directed "
    "graph on exactly the requested nodes with no undirected cycle, and the generator of multi-connected "
    "networks returns a connected directed acyclic graph on exactly the requested nodes. Both return for "
    "every number of nodes from one up.",
    ["inputs"],
    "Every sequence of random choices, explored to the fixpoint of reachable structures for small node counts.",
    "Tests generate a few networks with one seed.",
    ["pybbn/generator/bbngenerator.py"],
    [("edge moves", "pybbn/generator/bbngenerator.py __generate_singly_structure__, "
      "__generate_multi_connected_structure__")],
    "the returned graph",
)
p(
    "C19",
    "Generated parameters are valid and conversions keep them",
    "Every generated variable has between 2 and the requested maximum number of values, and its table has one "
    "non-negative row summing to one per parent combination; converting to a network keeps structure, table "
    "shape and the meaning of every row, and converting to a drawing graph, JSON text or a CSV/JSON file "
    "describes that same network.",
    ["inputs"],
    "Every choice of value counts and every explored structure; every output format.",
    "Tests check shapes of a few generated networks.",
    ["pybbn/generator/bbngenerator.py"],
    [("parameters", "pybbn/generator/bbngenerator.py __generate_parameters__"),
     ("conversion", "pybbn/generator/bbngenerator.py convert_for_exact_inference, convert_for_drawing, to_json, "
      "generate_bbn_to_file")],
    "returned parameters, network, files",
)
p(
    "C20",
    "Average causal effects equal the interventional distribution",
    "For any cause, effect and effect value, the estimated effect of setting the cause to each of its values "
    "equals the probability of the effect value in the network in which the cause is cut off from its parents "
    "and fixed, provided every value of the cause is possible under every possible combination of its parents. "
    "The result does not depend on earlier queries and leaves the network's own answers unchanged.",
    ["programs", "inputs", "histories"],
    "Every explored network, ordered pair of variables, effect value and order of queries.",
    "One test asks one query on two textbook networks.",
    ["pybbn/causality/ace.py"],
    [("back-door adjustment over the parents", "pybbn/causality/ace.py get_ace")],
    "returned effect per cause value",
)
p(
    "C21",
    "Path activity is d-separation",
    "A path of three or more nodes is reported active given evidence (not containing its end points) exactly if "
    "every inner non-collider is outside the evidence and every collider is in the evidence or has a descendant in it; two non-adjacent "
    "nodes outside the evidence are d-separated exactly if no path between them is active. The reported "
    "paths, triplet types, colliders and front-door and back-door flags of every pair are correct.",
    ["programs", "inputs"],
    "Every directed acyclic graph up to the size bound, every ordered pair and every evidence set.",
    "The repository has no test of these functions beyond the ACE estimate.",
    ["pybbn/causality/do.py"],
    [("activity of triplets and paths", "pybbn/causality/do.py is_active_triplet, is_active_path"),
     ("path metadata", "pybbn/causality/do.py get_paths")],
    "return values of the path functions",
)
p(
    "C22",
    "Confounder and mediator queries return only genuine confounders and mediators",
    "The full confounder query returns exactly the nodes strictly inside open back-door paths that are "
    "neither descendants of the cause nor colliders of a blocked back-door path. The minimal query returns "
    "only nodes strictly inside open back-door paths, and for each such path of three or more nodes one that "
    "blocks it. Every reported mediator lies strictly inside a directed path from cause to effect, and every "
    "such path has a reported one unless an inner node of it is a collider on some path between the two.",
    ["programs"],
    "Every directed acyclic graph up to the size bound and every ordered pair of nodes.",
    "The repository has no test of these functions.",
    ["pybbn/causality/do.py"],
    [("confounders", "pybbn/causality/do.py get_all_confounders, get_minimal_confounders"),
     ("mediators", "pybbn/causality/do.py get_minimal_mediators")],
    "returned node sets",
)
p(
    "C23",
    "Gaussian conditioning returns the conditional Gaussian",
    "Observing any set of variables of a multivariate Gaussian leaves exactly the other variables, in their "
    "order, with the conditional covariance matrix and, in the reported marginals, the conditional means and "
    "variances; observed variables are reported with their observed value and zero variance.",
    ["inputs"],
    "Every explored covariance matrix, mean vector, subset, order and value of observations.",
    "Tests check three fixed data sets of mean about zero with the observations in column order.",
    ["pybbn/gaussian/inference.py"],
    [("Schur complement", "pybbn/gaussian/inference.py do_inferences"),
     ("reported parameters", "pybbn/gaussian/inference.py P, marginals")],
    "covariances, marginals and remaining headers",
)
p(
    "C24",
    "Gaussian conditioning is independent of the order and grouping of observations",
    "The conditional covariance and the recorded observations do not depend on the order in which "
    "observations are listed, nor on whether they are made together or one after the other, and the means do "
    "not depend on the listing order. The object on which inference is performed is not changed by it.",
    ["inputs", "histories"],
    "Every order and every ordered partition of every explored set of observations.",
    "Tests make observations in one order only.",
    ["pybbn/gaussian/inference.py"],
    [("indices of observations", "pybbn/gaussian/inference.py do_inferences")],
    "results of differently ordered and grouped inferences",
)
p(
    "C25",
    "Potential operations obey table algebra",
    "Marginalising, multiplying, dividing and normalising tables give the sums, products, quotients (with "
    "0/0 and x/0 as 0) and proportions of the corresponding entries, for every choice of variables in any "
    "order (quotients: of tables over the same variables in the same order); a message between two cliques leaves the product of all tables divided by the separators "
    "unchanged (up to one common factor when the message leaves the ordinary floating-point range) where the separator is positive. Division returns a new table and leaves its arguments as they were.",
    ["inputs"],
    "All tables over up to three variables with 1 to 3 values and entries from a small set including zero.",
    "Tests check one example of each operation.",
    [G + "potential.py"],
    [("operations", G + "potential.py PotentialUtil")],
    "entries of the resulting tables",
)
p(
    "C26",
    "Copies of join trees and networks are independent",
    "A deep copy of a join tree has the same structure, evidence and marginals as the original and reacts to "
    "evidence like it; evidence on either never affects the other. A deep copy of a network infers the same "
    "and edits of either never affect the other.",
    ["histories"],
    "Every interleaving of evidence operations on original and copy up to the depth bound, with copies taken "
    "at every point and copies of copies.",
    "Tests copy once and compare attributes.",
    [G + "jointree.py", G + "graph.py", G + "node.py", G + "variable.py", G + "edge.py"],
    [("deep copy", G + "jointree.py __deepcopy__, graph.py __deepcopy__")],
    "marginals of original and copy after every operation",
)
p(
    "C27",
    "Inference on an edited network is inference on the network as it is now",
    "Applying exact inference to a network again after nodes or edges were added or removed, or CPTs were "
    "replaced, gives the same answers, with and without evidence, as applying it to a newly built identical "
    "network. Several trees built from one network answer independently, and a tree built before the "
    "network was edited keeps answering for the network it was built from, with evidence and re-application, whatever is "
    "done to the network later.",
    ["histories"],
    "Every sequence of edits and applications up to the depth bound.",
    "Tests apply inference once per network.",
    [T + "inferencecontroller.py", T + "potentialinitializer.py", T + "moralizer.py", T + "initializer.py"],
    [("cached choice of clique per node", T + "initializer.py get_clique"),
     ("CPT potentials of nodes", T + "potentialinitializer.py init")],
    "marginals after each application",
    [("node metadata", "parents and home clique cached in the shared node objects", G + "node.py metadata")],
)
p(
    "C28",
    "The DNE export describes the network completely",
    "The exported text contains, for every variable exactly once, its name, its states in order, its parents "
    "in the order of its CPT and its CPT in full precision, so that parsing the text yields the same "
    "distribution.",
    ["programs"],
    "Every explored structure, edge and node insertion order, numbering and CPT.",
    "One fixed network is exported and compared textually.",
    [G + "dag.py"],
    [("export", G + "dag.py Bbn.to_dne")],
    "the exported text, parsed",
)
p(
    "C29",
    "Inference never changes the network",
    "Building join trees, setting and withdrawing evidence, re-parameterising, sampling, exporting and "
    "estimating causal effects leave the network's variables, values, edges, parent orders and CPTs exactly "
    "as they were.",
    ["histories"],
    "Every sequence of read-only operations up to the depth bound.",
    "Tests do not look at the network after using it.",
    [T + "inferencecontroller.py", T + "moralizer.py", T + "triangulator.py", G + "jointree.py", G + "dag.py"],
    [("working copies of the graph", T + "moralizer.py, triangulator.py")],
    "the network's nodes, edges and CPTs after every operation",
)
p(
    "C30",
    "A partially directed graph never acquires a semi-directed cycle",
    "A partially directed graph accepts an offered edge exactly if its end points are distinct, not yet "
    "adjacent, and it closes no semi-directed cycle: one with at least one directed edge that can be followed "
    "without going against any (cycles of undirected edges alone are allowed). The order in which an "
    "undirected edge names its end points does not matter. Parents are the nodes with a directed edge to a "
    "node, out nodes all its other neighbours; adjacency queries describe exactly the accepted edges.",
    ["histories"],
    "Every sequence of offered directed and undirected edges, explored to the fixpoint of reachable graphs on "
    "up to 4 nodes.",
    "Tests offer a few edges to one or two graphs.",
    [G + "pdag.py"],
    [("admission of an edge", G + "pdag.py __shouldadd__, PathDetector")],
    "queries after every insertion",
)
p(
    "C31",
    "Samples of Gaussian marginals follow the reported marginals",
    "Sampling the marginals returns, for every variable, the requested number of values, drawn from a normal "
    "distribution with the variable's reported mean and standard deviation (a fixed tiny spread for observed "
    "variables), independently of what else is sampled.",
    ["inputs"],
    "Every explored Gaussian and observation set, with the normal generator replaced by scripted standard draws.",
    "Tests check only the shape of the result.",
    ["pybbn/gaussian/inference.py"],
    [("sampling", "pybbn/gaussian/inference.py sample_marginals")],
    "the returned samples as a function of the standard draws",
)
p(
    "C32",
    "Long, deep and wide networks are handled like small ones",
    "Building a network, inference under evidence, re-application, copying, serialising, the dictionary, JSON and CSV formats, "
    "sampling, causal queries, removing nodes and refusing cycles work and give the right answers on networks with "
    "hundreds or thousands of variables, whatever their shape (long chains and paths in either numbering, trees, "
    "strips, stars), and evidence on hundreds of variables at once does not lose the posteriors to underflow.",
    ["inputs", "histories"],
    "Eight shapes at sizes from 2 to thousands of variables, two CPT families, several evidence settings, every kind of operation.",
    "Tests stop at ten or so variables, far from the recursion limit and from the end of the floating-point range.",
    [G + "dag.py", G + "pdag.py", G + "jointree.py", G + "potential.py", G + "node.py", "pybbn/pptc/evidencecollector.py", "pybbn/pptc/evidencedistributor.py"],
    [("results", G + "jointree.py get_bbn_potential"), ("refusals", G + "dag.py PathDetector")],
    "no exception; posteriors, samples, reloaded networks and refusals equal to the reference along the shape",
)

p(
    "C33",
    "Questions about networks and join trees are answered from what they hold",
    "Looking up nodes by id or name, cliques by variable, families, parents, neighbours, edges, values, separation sets "
    "and their ids, weights and costs, the membership and containment questions about cliques and separation sets, and "
    "conversions to dictionaries answer exactly from what the network or tree holds, also for unknown ids and names, and in copied, "
    "re-applied and restored trees.",
    ["inputs"],
    "Every network up to the size bound and every node, pair, clique, pair of cliques, separation set and value in it.",
    "Tests ask a few of these questions on one network.",
    [G + "jointree.py", G + "node.py", G + "edge.py", G + "graph.py", G + "dag.py", G + "variable.py"],
    [("lookups", G + "jointree.py, node.py, graph.py")],
    "the answers to every question, compared with the specification of the network and sets of ids",
)
p(
    "C34",
    "Exported dictionaries are snapshots",
    "A dictionary made from a network or join tree describes it as it was when exported, and stays that way whatever is done to "
    "the network or the tree later (parents, removals, new CPTs, evidence, re-application); what is loaded from it depends on nothing else, "
    "and editing what was loaded changes neither the dictionary nor other objects.",
    ["histories"],
    "Every sequence of exporting, loading, editing, evidence and re-application up to the depth bound.",
    "Tests export and load once, and look at nothing afterwards.",
    [G + "dag.py", G + "jointree.py"],
    [("export", G + "dag.py to_dict, jointree.py to_dict"), ("load", G + "dag.py from_dict, jointree.py from_dict")],
    "all dictionaries and all networks and trees after every sequence",
)
p(
    "C35",
    "Work in one thread does not disturb work on other objects in another",
    "Two threads that use objects of their own (building and editing networks, inference, evidence, re-application, copying, restoring, "
    "file formats, learning, causal effects, path queries, Gaussian inference) get the results they would get alone, wherever one "
    "of them is preempted, even if their networks use the same ids and names. Sampling and generating, which draw "
    "from the process-wide random source, are excluded.",
    ["schedules"],
    "Every point of preemption in the library's code, up to the preemption bound.",
    "Tests run in one thread.",
    ["pybbn/pptc", G[:-1] if G.endswith("/") else G, "pybbn/causality", "pybbn/gaussian"],
    [("no state outside the objects", "module and class level of pybbn")],
    "the results of both threads under a controlled scheduler, against the same work done alone",
)

p(
    "C36",
    "Evidence objects and builders can be used again",
    "An evidence object says what its type and values say whenever it is set, on any tree over its variable (the tree it was made for, copies, "
    "re-applied trees, other trees of the network), any number of times, and also after it was given other values. A tree keeps the evidence as it "
    "was when set, whatever is done to the evidence object later. A builder can go on after building, without affecting what it built.",
    ["histories"],
    "Every sequence of setting, editing and re-using evidence objects and builders on a growing set of trees, up to the depth bound.",
    "Tests make a new evidence object for every use.",
    [G + "jointree.py"],
    [("evidence", G + "jointree.py Evidence, EvidenceBuilder, update_evidences, set_observation")],
    "the posteriors of every tree after every sequence",
)

p(
    "C37",
    "Interrupted or refused operations do no damage",
    "If inference, a change of evidence, re-application, copying, serialisation, an export or import, learning, a causal or path query, Gaussian inference or "
    "sampling is interrupted (KeyboardInterrupt) at any point, doing the same again with the same objects gives what it gives uninterrupted. After an interrupted change of evidence, "
    "the next completed change leaves the tree consistent, every changed value having its old or its new likelihood; retracting all evidence, re-applying, copying and "
    "restoring recover as well. Changes of evidence with unknown values or nodes have no effect.",
    ["crash_points", "histories"],
    "Every line of the library at which each operation can be interrupted, and every way to go on.",
    "Tests interrupt nothing, and refused requests are not followed by others.",
    [G + "jointree.py", "pybbn/pptc", "pybbn/sampling/sampling.py", "pybbn/causality", "pybbn/gaussian"],
    [("change of evidence", G + "jointree.py update_evidences, pybbn/pptc/inferencecontroller.py evidence_retracted, evidence_updated"),
     ("propagation", "pybbn/pptc/propagator.py")],
    "results of the repeated operation; posteriors after every interruption and continuation",
)

p(
    "C38",
    "What is printed is what is held",
    "The text of a potential has one line per entry, in the order of its entries: id=value for every variable in ascending order of the ids, separated by commas, a bar, and "
    "the number to five decimals; the dictionary of potentials has one key id=value|id=value per entry, with its exact number. The text of a node is id|name|values, of an edge "
    "a->b or a--b (ids), of a clique its sorted names, of a separation set its names between its two cliques, of a graph or join tree all its nodes and edges. "
    "A Gaussian prints its variables, means, covariances and observations to three decimals. This holds for applied, copied, re-applied and restored objects, under any evidence.",
    ["inputs", "histories"],
    "Every network up to the size bound, with ids whose numerical and textual order differ and names and values easily mistaken for each other, under several evidence settings.",
    "Printing is how results are read in the documentation; tests print nothing.",
    [G + "potential.py", G + "node.py", G + "variable.py", G + "edge.py", G + "graph.py", "pybbn/gaussian/inference.py"],
    [("text of tables", G + "potential.py __str__, get_kv, to_dict"), ("text of graphs", G + "graph.py, node.py, edge.py __str__")],
    "str, repr and dictionaries, compared with the specification of the network and the values held",
)

p(
    "C39",
    "Objects survive pickling",
    "Networks, join trees (with the evidence in force), samplers, evidence objects, potentials, directed and partially directed graphs and Gaussians that are pickled and loaded, "
    "in the same or another process, are equal to and independent of the original, and go on like it: evidence, retraction, re-application, copying, serialisation, "
    "edits, further edges, samples and further observations have the same effect on both. Objects pickled together stay connected.",
    ["inputs", "histories"],
    "Every network up to the size bound, every sequence of pickling and other operations on any of the trees up to the depth bound, processes with other hash seeds.",
    "No test pickles anything; hash seeds differ between processes.",
    [G + "jointree.py", G + "dag.py", G + "node.py", G + "variable.py", "pybbn/gaussian/inference.py", "pybbn/sampling/sampling.py"],
    [("identity and hashing of nodes", G + "node.py"), ("state of a tree", G + "jointree.py")],
    "posteriors, structure, samples and tables of loaded objects, and of the originals after the loaded ones were changed",
)

p(
    "C40",
    "Join tree listeners are told of every change",
    "A listener set on a join tree is called exactly once by every operation that changes the evidence in force (setting, updating one or several, unobserving one or all), with that tree, "
    "after the new evidence is in force, and at most once by any other change operation; never by questions or by changes of other trees, and never after it was replaced. A listener that "
    "initialises and propagates upon retraction and propagates upon update keeps the tree right, and can read the right posteriors at once. If a listener fails, repeating the change puts everything right.",
    ["histories"],
    "Every sequence of evidence operations, questions and changes of listeners up to the depth bound.",
    "Tests use only the listener that inference sets.",
    [G + "jointree.py", "pybbn/pptc/inferencecontroller.py"],
    [("notification", G + "jointree.py update_evidences, __notify_listener__, get_change_type, set_listener")],
    "calls of the listener, the evidence in force during them, posteriors inside and after",
)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
