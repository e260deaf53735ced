#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
G="sidermit/city/graph.py"; D="sidermit/city/demand.py"; M="sidermit/publictransportsystem/mode.py"
N="sidermit/publictransportsystem/network.py"; PA="sidermit/publictransportsystem/passenger.py"
X="sidermit/optimization/preoptimization/extended_graph.py"; H="sidermit/optimization/preoptimization/hyper_path.py"
A="sidermit/optimization/preoptimization/assignment.py"; O="sidermit/optimization/optimizer.py"
U="sidermit/optimization/users_cost.py"; OP="sidermit/optimization/operators_cost.py"
I="sidermit/optimization/infrastructure_cost.py"; C="sidermit/optimization/constrains.py"

p("C01","City generation: zones, nodes and directed links",
 "A city generated for n zones always has exactly one CBD (id 0) plus, for every zone, one periphery and one subcenter, with unique ids and names, each belonging to its own zone. Its directed links, with distinct ids, are exactly periphery<->own subcenter, subcenter<->CBD and both directions between neighbouring subcenters of the ring (one pair when n=2, none when n=1), each once. All node, zone and link queries report exactly that city and nothing for elements that do not exist.",
 ["inputs","configurations"],"every zone count n>=0 and every valid geometric parameter set, then every query on the resulting city",
 "tests look at n in {0..5} with one parameter set and mostly compare counts; wiring errors on a particular zone, parity of n or symmetric distances pass.",
 [G],[("Graph.build_from_parameters","%s:Graph.build_from_parameters"%G),("edge construction","%s:Graph.__add_edges / build edges"%G),("queries","%s:Graph.get_*"%G)],
 [("nodes, zones, edges","lists held by a Graph")],["public getters of Graph"])
p("C02","City geometry follows its parameters",
 "Every node's radius, angle and x/y position follow from the parameters: zone k lies at k*360/n degrees unless angles are given, subcenters at radius L*Gi, peripheries at (L+g*L)*Hi, the CBD displaced by etha*(radius of the chosen subcenter) towards it. Link lengths and node-to-node distances are the Euclidean distances between those positions, symmetric, zero exactly for coincident points. Reading the parameters back returns the values the city was built with.",
 ["inputs"],"all n, L, g, etha, zone of etha, angle vectors and Gi/Hi vectors in their domains",
 "tests check a few coordinates of one or two cities; sign/quadrant/scale errors for asymmetric cities are not sampled.",
 [G],[("position of nodes","%s:Node/Zone constructors, build_from_parameters"%G),("distances","%s:Graph.get_edges_distance, get_xy, get_angle"%G)])
p("C03","City exchange files: round trip and rejection of malformed files",
 "Exporting a city to a Pajek file and reading it back yields the same nodes, ids, zones, kinds, positions and links, up to the printed precision, whatever the order of the lines of the file (for cities in which no two nodes of different angle coincide with the CBD). A file with fewer or incomplete node lines than declared, non-numeric fields, duplicate ids, unknown node kinds, no or several CBDs, zones without exactly one periphery and one subcenter, or peripheries that are on average nearer to the CBD than the subcenters is rejected with an error instead of producing a city. Fields may be separated by any blank space and lines ended in either convention; text content and file content are interpreted identically. The parameters a city read from a file reports describe it: when its zones are straight rays from the origin (and the CBD is at the origin or on one of them), building a city from them gives the same zones and positions.",
 ["inputs","fault_sequences"],"all cities and all line permutations, truncations and single-field corruptions of their exported files",
 "tests read five fixed files; they never truncate, permute or corrupt generated files, nor compare a re-import with the original.",
 [G],[("export","%s:Graph.graph_to_pajek_file, export_graph"%G),("import","%s:Graph.build_from_file, build_from_content"%G)])
p("C04","Parameter domains are enforced, and rejection changes nothing",
 "A city, transport mode, passenger or node definition is accepted exactly when every value lies in its documented domain (type, sign, range, lengths of vectors, existing zones), and otherwise rejected with that parameter's error. Accepted objects report exactly the values they were given (defaults for those omitted, fleet-level frequencies scaled by the number of lines d).",
 ["inputs"],"every combination of one or several parameters at, inside and outside the boundary of their domains, and values of wrong type",
 "tests try one bad value per parameter; boundaries, combinations and missing values are not enumerated.",
 [G,M,PA],[("mode validation","%s:TransportMode.__init__"%M),("passenger validation","%s:Passenger.__init__"%PA),("graph validation","%s:Graph parameter validators, Node/CBD/Periphery/Subcenter/Zone/Edge"%G)])
p("C05","Demand matrix: edits are exact, totals always equal the sum",
 "After any sequence of edits, the matrix holds for every ordered node pair of the city the last accepted value (0 if never set), and the reported total of trips equals the sum of all entries. An edit with a negative amount or an unknown origin or destination is rejected with its error and leaves matrix and total unchanged. Cells other than the edited one never change.",
 ["histories"],"all histories of accepted and rejected edits over all cities, including overwriting, zeroing and self-pairs",
 "tests perform a couple of edits and never compare the running total after overwriting.",
 [D],[("change_vij","%s:Demand.change_vij"%D)],[("matrix, total_trips","trips per ordered pair and their sum")])
p("C06","Parametric demand distributes exactly the given trips",
 "Demand generated from y, a, alpha, beta puts, for each zone, a share a of y/n on the periphery and 1-a on the subcenter, and splits it to the CBD (alpha), the own subcenter (beta, peripheries only) and equally over the other subcenters (the rest; for the subcenter renormalised by 1-beta). No trips leave the CBD or reach a periphery, no entry is negative, and the entries sum to y. Parameters outside their domain (a, alpha in [0,1], beta in [0,1), alpha+beta<=1, y>=0, and n>=1) are rejected; with one zone everything not going to the CBD goes to the own subcenter.",
 ["inputs"],"all n>=1, y, a, alpha, beta in the domain (beta<1), including the faces of the simplex",
 "tests check three cells for one parameter set per n.",
 [D],[("build_from_parameters","%s:Demand.build_from_parameters"%D)])
p("C07","Demand files and text: lossless exchange",
 "Writing a demand matrix to a file and reading it back gives the same matrix and total, and a square text matrix assigns row i, column j to the i-th/j-th node of the city. A file or text naming unknown nodes, with a wrong size, missing or non-numeric or negative values is rejected with an error and never yields a partially or wrongly filled demand.",
 ["inputs","fault_sequences"],"all matrices over all cities, all line orders, and single corruptions of the files",
 "tests read one fixed file and compare a single total.",
 [D],[("matrix_to_file/build_from_file","%s:Demand"%D),("build_from_content","%s:Demand.build_from_content"%D)])
p("C08","Mode registry: unique names, one or two modes for assignment",
 "After any sequence of additions and removals, the registry holds exactly the modes added and not removed, in order of addition, with unique names; a duplicate addition, removal of an unknown mode or lookup of an unknown mode raises its error and changes nothing. A mode set is usable for assignment exactly when it has one mode, or two of which at least one has a single line (d=1).",
 ["histories"],"all histories of add/remove/lookup over modes with equal and different names and d",
 "tests run three or four calls; removal/re-addition histories and all d combinations are not enumerated.",
 [M],[("TransportModeManager","%s:TransportModeManager"%M)])
p("C09","Network registry: routes and modes stay consistent",
 "After any sequence of adding/removing modes and routes, the network holds exactly the routes added and not removed, in order, with unique ids, and every route's mode is registered; removing a mode removes all of its routes and no other. Adding a route registers its mode if needed. It is rejected with its error when the id is a duplicate, when - in either direction - it uses a link that does not exist in the city, or when the mode cannot be registered (another mode object of that name, or the set would not be one mode or two with at least one of d=1); so are removals and lookups of unknown routes, and a rejected call changes nothing. Removing a mode that is not registered changes nothing.",
 ["histories"],"all histories of add/remove of routes and modes, with routes valid/invalid in one or both directions",
 "tests remove a mode holding one route and add routes invalid in both directions only.",
 [N,M],[("add_route/remove_route/remove_transport_mode","%s:TransportNetwork"%N)],[("routes, modes","ordered registries of a network")])
p("C10","Custom routes are accepted exactly when well formed",
 "A user-defined route is accepted exactly when both directions visit at least one node, each direction starts where the other ends, no node repeats within a direction, and each direction's stop list is non-empty, uses only nodes of that direction and contains its first and last node. A rejected route raises the corresponding error; an accepted one reports the sequences it was given. (Whether stops out of travel order or repeated are accepted is left open.) Text sequences are read as comma-separated node ids and written back identically.",
 ["inputs"],"all pairs of node and stop sequences over small alphabets, both directions independently",
 "tests give one bad example per rule, always wrong in both directions.",
 [N],[("Route validators","%s:Route.*validator*"%N)])
p("C11","Predefined route families trace exactly their corridors",
 "For every city with n zones, each generator (circular, feeder, radial, diametral, tangential; plain, short, express, short-express) yields, for the documented set of zones, routes whose two directions are the reverse of one another, run over existing links through exactly the corridor the family defines, stop at every node or (express) only at the permitted ones, start at the periphery or (short) the subcenter (radial short express equals radial short), and carry unique ids naming family, jump, mode and zone. A diametral with jump n/2 on even n serves every pair of opposite zones once; jumps outside 1..n/2 or not integer are rejected. Generated routes can be added to the network.",
 ["inputs","configurations"],"every n, every jump, both flags, every mode name",
 "tests compare lists for one n per family.",
 [N],[("get_*_routes","%s:TransportNetwork.get_circular_routes, get_feeder_routes, get_radial_routes, get_diametral_routes, get_tangencial_routes"%N)])
p("C12","Route export lists every route completely",
 "The exported route file contains, after its header, one line per route of the network in order, with its id, mode and the four sequences; the file re-read field by field (or re-built as custom routes where the route is not circular) gives exactly the same routes.",
 ["inputs","histories"],"all networks reachable by adding and removing routes",
 "the export is only called once, its content is not compared.",
 [N],[("routes_to_file","%s:TransportNetwork.routes_to_file"%N)])
p("C13","Extended network structure mirrors city, modes and routes",
 "The extended network used for assignment has one city node per node where some route stops, one stop node per such node and mode, and per route and direction one line node per visited node where it calls; it contains exactly the access, boarding, alighting and in-vehicle links of that structure. No boarding exists at the last stop of a direction nor alighting at its first; consecutive stops of a direction are linked in order; a circular route closes into a ring in both directions.",
 ["inputs","configurations"],"all networks of custom, predefined, express and circular routes of one or two modes",
 "tests count nodes/links of a handful of networks.",
 [X],[("ExtendedGraph construction","%s:ExtendedGraph.__build_*"%X)])
p("C14","Extended network times and frequencies are physical",
 "Access links take the mode's access time both ways, boarding takes no time and carries frequency f/d of its route (the mode's initial frequency when none is given), alighting takes the transfer time, and an in-vehicle link takes the length of the path actually driven between the two stops - through every intermediate node, served or not - divided by the mode's speed. All other links have unlimited frequency. Building the network for other frequencies changes only the boarding frequencies of the routes concerned.",
 ["inputs"],"all cities, modes with different d, speeds and access times, and all frequency vectors",
 "tests use symmetric cities in which every node is served, d=1 and tat=0.",
 [X],[("link times","%s:ExtendedGraph"%X)])
p("C15","Passengers' strategies are optimal (labels and attractive lines)",
 "For each destination the expected generalised cost assigned to every node equals the minimum over all strategies: best outgoing link, or at a stop the combination of lines that minimises (wait + frequency-weighted cost), with access, waiting, in-vehicle and transfer time weighted as the passenger definition says. The lines retained at a stop are exactly those whose use lowers the expected cost, independent of link order. Cost from a node that cannot reach the destination is infinite.",
 ["inputs","schedules"],"all extended networks, frequency vectors, passenger and mode weights; all orders in which links are processed",
 "tests compare labels on four hand-made networks with weights equal to 1 or 2.",
 [H],[("build_hyperpath_graph","%s:Hyperpath.build_hyperpath_graph"%H)])
p("C16","Connectivity check and enumeration of elementary paths",
 "A network is reported unusable exactly when some pair of different nodes with positive demand has no way to travel or the modes that stop somewhere are neither one mode nor two of which one has d=1; the check never changes later answers. Strategies are produced for exactly the pairs with positive demand, with their demand. For each such pair and each stop of the origin from which the destination can be reached, the enumerated paths are exactly the elementary paths of the optimal strategy from the origin through that stop to the destination, once each.",
 ["inputs"],"all networks (connected or not, with unserved nodes) and demand matrices",
 "tests have one disconnected network and compare a few path counts.",
 [H],[("network_validator","%s:Hyperpath.network_validator"%H),("get_hyperpath_OD, get_all_hyperpaths","%s"%H)])
p("C17","Every trip is assigned, split over stops by walking indifference",
 "For each pair with positive demand the shares over the strategy's paths and stops are non-negative and sum to 100%. With one usable origin stop it takes everything; with two modes, travellers spread uniformly along the corridor width go to the single-line mode or to the nearest line of the multi-line mode, whichever has the lower total of walking plus expected cost (those exactly indifferent may go either way). Pairs without demand receive no assignment.",
 ["inputs"],"all pairs of stop costs, d, access times and passenger weights, in particular equal costs and indifference points on the lines",
 "tests use few label pairs; ties and boundary positions of the indifference point are not tested.",
 [A],[("get_assignment","%s:Assignment.get_assignment"%A)])
p("C18","Boardings, alightings and loads conserve passengers",
 "At every stop of every route and direction the boardings, alightings and on-board loads per vehicle are non-negative and satisfy: load after = load before + boardings - alightings. All demand boards and arrives: at every place alightings minus boardings equal the demand to it minus the demand from it, and at every stop passengers split over the attractive lines in proportion to frequency. The most loaded section reported for a route is the maximum of its loads.",
 ["inputs"],"all assignments and frequency vectors",
 "tests check some figures of three networks; conservation is never asserted.",
 [A],[("get_alighting_and_boarding, most_loaded_section","%s:Assignment"%A)])
p("C19","Users' resources and cost account for every passenger stage",
 "Total access, waiting, in-vehicle time and number of transfers equal the sum over all passengers of the stages of their paths: access when entering a mode's stop at the origin or when changing modes (the mode's access time, plus at the origin the average lateral walk of those using it: share x corridor width / (4 va d)), expected waiting at each boarding, riding plus the dwell met on the way in the direction of travel, transfers = boardings - 1. The users' cost is the sum of these totals times their values (pa, pw, pv, pt). Without access and dwell time this equals demand times expected strategy cost.",
 ["inputs"],"all assigned networks, including circular routes, routes with different directions, and transfers between modes",
 "tests check one network's totals.",
 [U],[("resources_consumer, get_users_cost","%s:UsersCost"%U)])
p("C20","Operators' cycle time and cost",
 "A route's cycle time is the driving time of both directions plus dwell, where at each stop dwell is the sum (boarding and alighting in sequence) or the maximum (simultaneous) of boardings and alightings times the unit time. The operators' cost is the sum over routes of (fixed + size-dependent unit cost) times frequency times cycle time. Cost is zero for routes with zero frequency.",
 ["inputs"],"all networks, frequencies, loads, both boarding regimes",
 "tests check one value.",
 [OP],[("lines_travel_time, get_cycle_time, get_operators_cost","%s:OperatorsCost"%OP)])
p("C21","Infrastructure cost counts each corridor once per mode",
 "Infrastructure cost is the sum over modes of (cost per length) * d * total length of the corridors used by at least one route of that mode with non-zero frequency, each corridor counted once regardless of direction or number of routes.",
 ["inputs"],"all networks with overlapping routes, zero-frequency routes, one or two modes",
 "tests check a single-mode network with positive frequencies.",
 [I],[("InfrastructureCost","%s"%I)])
p("C22","Capacity constraints: vehicle size and link frequency",
 "The constraint values are exactly: per route, required vehicle size minus the mode's maximum size; per link and mode, sum over routes driving that link in that direction of frequency/d minus the mode's maximum/d. A frequency vector violates a constraint exactly when one of these is positive. Every link of the city is covered for every mode; the order of the list is free.",
 ["inputs"],"all networks including routes whose directions use different links, and all frequency vectors",
 "tests check the length of the lists.",
 [C],[("Constrains","%s"%C)])
p("C23","Objective and frequency vectors agree with routes",
 "The optimisation vector has one entry per route in network order, starting from the mode's initial frequency (d x the initial frequency of one line), and mapping vector to per-route frequencies is exact. Vehicle size of a route is its most loaded section; the objective at a vector equals operators + infrastructure + users cost at these frequencies for the fixed assignment, and the constraints handed to the optimiser are those of the network at that vector. All of it is about the optimiser's own inputs: its extended network (at its starting frequencies), its strategies for the pairs with demand and its assignment are the ones specified for the given city, passenger, network and demand.",
 ["inputs"],"all networks and frequency vectors",
 "tests evaluate a few vectors.",
 [O],[("VRC, f0, fopt_to_f, get_k","%s:Optimizer"%O)])
p("C24","Optimisation loop: termination, feasibility and best result",
 "The outer loop alternates assignment at the current frequencies and an inner frequency optimisation (which starts at the modes' initial frequencies, keeps frequencies non-negative and imposes the network's capacity constraints on its cost). It stops as soon as successive frequency vectors differ in total by less than the tolerance, or after limit+1 inner optimisations. The result is, among the inner results that did not fail (status other than -1, 0 or 3), violate constraints by less than 0.001 and have no negative frequency, one of lowest cost, with frequencies below one per day set to zero; when there is none the no-solution error is raised. The status check of a result raises the negative-frequency error below -0.1, the constraint error above 0.1, the no-solution error for status 0 or 3, and nothing otherwise.",
 ["histories","fault_sequences"],"all sequences of inner optimisation outcomes (success, failure, infeasible, negative, ties), tolerances and limits",
 "tests run two real optimisations; failing or infeasible inner runs never occur.",
 [O],[("external_optimization, get_better_result, last_iteration, status_optimization, network_optimization","%s:Optimizer"%O)])
p("C25","Per-route and per-network results restate the evaluation",
 "The network report has one row per route in network order: frequency, frequency per line, vehicle size, fleet (frequency x cycle time), cycle time in minutes, operators cost per boarding passenger, minimum load factor, and for each direction the consecutive pairs of driven nodes with the load factor (load/vehicle size) on that section. All figures are zero for a route with zero frequency, load factors are zero when nobody rides. Reports exist whatever the loads (empty sections, alighting-only stops, empty or circular routes), and text and file carry the same figures to two decimals.",
 ["inputs"],"all optimised networks, including routes that carry nobody, empty sections, circular and custom routes",
 "tests only check that the report can be produced for two networks.",
 [O],[("get_network_results, string_*","%s:Optimizer"%O)])
p("C26","Overall results add up",
 "The overall report equals the evaluation of the final frequencies: total cost per trip = operators + infrastructure + users per trip; access, waiting, in-vehicle minutes and transfers per trip are the users' totals over the number of trips; and for every mode with running routes (positive frequency) it gives the fleet (sum of frequency x cycle time), the average vehicle size of its running routes and its number of lines (running routes x d). Text and file carry the same figures to two decimals.",
 ["inputs"],"all optimised networks and demands",
 "tests only check that numbers exist.",
 [O],[("get_overall_results, write_file","%s:Optimizer"%O)])
p("C27","Evaluations are pure and independent",
 "Building and evaluating (extended networks, strategies, assignments, costs, constraints, optimisation, reports, exports, the connectivity check) never changes the city, demand, modes, passenger or network it is given, and repeating it - in any order, after other evaluations, after edits that were undone, or with other objects of the same kind alive - gives the same answer as a fresh process with the same inputs. Answers of evaluations handed out belong to the caller: later operations do not change them, and changing them changes no later answer (lists of a city's or network's elements and the demand matrix may be live views).",
 ["histories"],"all sequences of public evaluations interleaved over several cities/networks",
 "every test builds fresh objects and evaluates once.",
 [G,D,N,X,H,A,O],[("all evaluation entry points","sidermit/*")])
p("C28","Text listings show the evaluation",
 "The text listings an evaluation offers restate its objects, all of them, once, and nothing else, with figures rounded to the decimals shown and in the unit shown, and producing a listing changes nothing and repeats: the extended network (str: every city node, its stops with mode and access time in minutes, their line nodes with line frequency where one can board, transfer penalty in minutes where one can alight, route, direction, previous stop and riding time from it in hours, or 'no data' where the line begins); the strategy of a pair (every node with label, chosen links by type and ends, combined frequency); its elementary paths (per stop of the origin every path with every node and its label); the summary of all pairs (per pair and stop of the origin: trips, label, number of elementary paths and of chosen links); boardings and alightings (every non-zero figure per route, direction and stop).",
 ["inputs"],"all extended networks, pairs, demands and loads, including lines not running, unreachable nodes and circular lines",
 "no test reads a listing.",
 [X,H,A],[("ExtendedGraph.__str__, string_hyperpath_graph, string_hyperpaths_OD, string_all_hyperpaths, str_boarding_alighting","sidermit/optimization/preoptimization/*")])
p("C29","Pictures show what they are of",
 "A picture of a city shows every node (kinds in different colours, at its coordinates, captioned with its id) and every directed link, once per pair of ends; a picture of a network shows besides, in colours of their own, exactly the stops and the driven links of the chosen routes (all by default) in the chosen directions (both by default); a picture of the paths of a pair shows exactly the city nodes, stops and line nodes of the paths and the links between consecutive ones. A picture has a title and one pair of axes X and Y to the same scale, shows links as arrows and contains nothing else - in particular nothing of pictures made before -, is written to the file asked for and leaves its inputs as they were; an unknown route is rejected and no picture is made. Cities without zones and networks without routes can be drawn, too.",
 ["inputs","histories"],"all cities, networks, selections of routes and directions, and all sequences of pictures in one process",
 "the tests of plotting are commented out; what a picture holds depends on the pictures made before in the same process.",
 [G,"sidermit/publictransportsystem/network.py",H],[("plot","Graph, TransportNetwork, Hyperpath")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        f.write(json.dumps(q)+"\n")
print(len(P))
