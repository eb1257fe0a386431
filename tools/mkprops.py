"""Regenerates /verif/properties.jsonl (single place where the statements are edited)."""
import json, os
S = "python/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("P01", "Interior voltages and currents obey the discrete telegrapher equations",
 "After every time step of a line or of a bundle, the new voltage at every interior node satisfies the centred charge balance (C dV/dt + G V + dI/dx = 0, with the incident transverse field subtracted) and the new current in every cell satisfies the centred voltage balance (L dI/dt + R I + lumped and transfer impedances + dV/dx = longitudinal incident field). The balances hold for any number of conductors, any non-uniform spacing, any per-node/per-cell full matrices and any time step, and use the spacing of the node or cell they are written for. Nothing but the interior voltages, the currents, the dispersive state, the clock and the probe records changes.",
 ["inputs", "histories", "configurations"], "every conductor count, cell count, spacing, L/C/R/G field, time step, state and incident field",
 "Tests run a few fixed lines and compare a handful of samples with tolerances; an index, spacing or half-step error that is small on uniform lossless lines is invisible to them.",
 ["mtl.py", "dispersive.py"],
 [("update_cg_terms / update_lr_terms", "mtl.py: MTL and MTLD"), ("advance_voltage / advance_current", "mtl.py: MTL and MTLD")],
 [("v, i", "node voltages, cell currents (half a step later)", "mtl.py"), ("c, g, l, r", "per-unit-length matrices per node / cell", "mtl.py")],
 ["MTL.step", "MTLD.advance_voltage", "MTLD.advance_current"])

prop("P02", "Line ends behave as Thevenin terminations at the end half cells",
 "For a stand-alone line, each end node satisfies after every step the half-cell charge balance with the series impedance and the time-averaged source voltage of that end: V + Z(I + half-cell charging and leakage) = Vs, with the current entering the line at the near end and leaving at the far end. A zero impedance makes the end follow the average of its source exactly. The balance always uses the conductance, capacitance, spacing and time step in force during the run, not those at construction.",
 ["inputs", "histories", "configurations"], "every conductor count, impedance vector/matrix, per-node C and G, spacing, time step, state and source function",
 "Tests use one or two resistive loads on uniform lines with the default time step; stale coefficients or a swapped near/far spacing or sign only shows on other configurations.",
 ["mtl.py"], [("compute_terminal_terms", "mtl.py: MTL"), ("advance_left_terminal / advance_right_terminal", "mtl.py: MTL"), ("init_Zt", "mtl.py: MTL")],
 [("zs, zl", "end impedances", "mtl.py")], ["MTL.step", "MTL.run_until"])

prop("P03", "Network nodes obey Kirchhoff's current law with their element equations",
 "Every node of a junction or termination network satisfies, after each network step, current balance between the line half cell attached to it (charge, leakage, transverse field), the line currents and the lumped elements stamped on it. State variables of reactive terminations satisfy their own first-order circuit equations, and sources enter at the right instants. This holds for any number of nodes and state variables and any stamp values.",
 ["inputs", "histories", "configurations"], "every node count, state-variable count, stamp matrix, line capacitance/conductance, source and time step",
 "Tests exercise one- and two-node networks with R, C or LCpRs values against SPICE curves at loose tolerance.",
 ["networks.py"], [("compute_v_terms", "networks.py: Network"), ("advance_voltage / update_sources", "networks.py: Network")],
 [("nw_v, nw_i, X", "node voltages, line currents, element states", "networks.py")], ["Network.advance_voltage"])

prop("P04", "Element stamps are physical, additive and confined to their nodes",
 "Connecting an element adds exactly that element's constitutive relation between the nodes it is connected to: a resistor conducts (V1-V2)/R out of one node and into the other, a capacitor carries C d(V-Vs)/dt, a series R with a parallel LC follows its two state equations, a source drives its own node only. Elements on the same node accumulate, in any order, and connecting one never alters the relation of other nodes. Connecting to an unknown node is refused.",
 ["inputs", "histories"], "every element value, node pair, prior stamp contents and order of connection",
 "Tests check a few stamp entries of isolated elements; accumulation, order independence and current conservation are never combined.",
 ["networks.py", "utils.py"], [("connect_to_ground*, short_to_ground", "networks.py: Network"), ("connect_nodes, short_nodes", "networks.py: Network")],
 [("P1, Ps, Q1, Qs, M, N1, Ns, O", "element relation matrices", "networks.py")], ["Network.connect_*"])

prop("P05", "Networks read and drive exactly the line ends they are attached to",
 "A network node takes its capacitance, conductance, spacing and transverse field from its own conductor and end of its own line, reads that conductor's end current with the sign of current entering the line, and writes its voltage to that conductor's end node and nowhere else. In a bundle with several levels and several lines per level the conductor is located after all the conductors of the previous levels and of the previous lines of the same level. Registering the networks again, or in bulk, does not change the mapping.",
 ["inputs", "configurations", "histories"], "every bundle structure, connection list order, end and registration history",
 "Test bundles have at most one line per level and register networks once.",
 ["networks.py", "mtln.py"], [("Network.__init__, _add_nodes_in_line, _add_node", "networks.py"), ("update_index_numbers", "networks.py: NetworkD"), ("update_voltages / update_currents", "networks.py: Network"), ("add_network(s)", "mtln.py: MTLN")],
 [("connections", "node -> conductor, end, row", "networks.py")], ["MTLN.run_until"])

prop("P06", "Rest stays at rest, response is linear, influence travels one cell per step",
 "With no sources, no incident field and zero state, every later voltage and current is exactly zero. The state after a step depends linearly on the previous state and the excitations. A change of the state at one place affects, one step later, only the same and the adjacent cells and nodes.",
 ["inputs", "histories"], "every line, state pair, excitation and position",
 "Locality and linearity are relations between runs; tests only look at single runs.",
 ["mtl.py", "dispersive.py"], [("step", "mtl.py: MTL"), ("advance_*", "mtl.py: MTL, MTLD")], [("v, i", "state", "mtl.py")], ["MTL.step"])

prop("P07", "Passive lines never create energy",
 "For a line with symmetric L and C, non-negative R and G, passive end impedances and no excitation, the discrete energy at the end of a step equals the energy before minus the energy dissipated in R, G and the terminations during the step. Hence the energy never grows, for any initial state; and with the default time step (lines homogeneous along their length) it is non-negative, so the response stays bounded.",
 ["inputs", "histories"], "every passive line and initial state, over any number of steps",
 "Tests run short simulations of a few lines and do not monitor energy.",
 ["mtl.py"], [("step", "mtl.py: MTL"), ("compute_terminal_terms", "mtl.py: MTL")], [("v, i", "state", "mtl.py")], ["MTL.step"])

prop("P08", "One clock drives the whole network and every run has the asked number of steps",
 "In a run, all lines, networks and probes use the same time step (the forced one, or the smallest of the members), each step evaluates sources at the current time, advances voltages before currents, and then moves the clock by exactly one time step. A run to time T performs floor(T/dt) steps and each probe records exactly that many frames. Coefficients are recomputed for the time step in force before the first step.",
 ["histories", "configurations", "inputs"], "every set of lines, networks and probes, final time and forced time step",
 "Tests run with default or one forced step on small networks, and compare waveforms rather than the schedule.",
 ["mtln.py", "mtl.py", "networks.py"], [("run_until, step", "mtln.py: MTLN"), ("run_until, step, set_time_step", "mtl.py: MTL"), ("update_sources", "networks.py: NetworkD")],
 [("dt, time", "time step and clock", "mtln.py")], ["MTLN.run_until", "MTL.run_until"])

prop("P09", "The default time step respects the Courant limit of the fastest mode",
 "The default time step of a line is its shortest cell divided by its largest modal phase velocity, where the modal velocities are 1/sqrt of the eigenvalues of L C; a bundle takes the smallest of its lines, and a network the smallest of its bundles. No cell is therefore crossed in less than one step by any mode.",
 ["inputs", "configurations"], "every L, C, spacing, bundle and network composition",
 "Tests check the velocity of one or two lines with uniform cells.",
 ["mtl.py", "mtln.py"], [("get_phase_velocities, get_max_timestep", "mtl.py: MTL"), ("MTLD.__init__", "mtl.py"), ("add_bundle", "mtln.py: MTLN")], [("dt", "time step", "mtl.py")], ["MTL.__init__", "MTLN.add_bundle"])

prop("P10", "Lines are discretised exactly as described",
 "A line made of straight segments with given division counts has nodes evenly spaced within each segment, the first and last nodes at the ends, cell vectors joining consecutive nodes and cell lengths equal to their norms. The given L, C, R, G and end impedances apply to every node or cell of the new line, its state is zero and its excitations null. Inconsistent inputs are refused.",
 ["inputs"], "every number of segments, division counts, positions, matrices and impedance shapes",
 "Tests use a single straight segment or equal division counts.",
 ["mtl.py"], [("MTL.__init__, init_LC, init_RG, init_Zt", "mtl.py")], [("u, du, du_norm", "nodes, cells, lengths", "mtl.py")], ["MTL.__init__"])

prop("P11", "Probes record the nearest node or cell with the right time stamps",
 "A voltage probe records, at every step, the voltages of all conductors at the node nearest to its position, stamped with the time reached; a current probe records the currents of the cell starting there (the last cell at the far end), stamped half a step later. Frames are kept in order and never lost or overwritten, also past the announced number; positions off the line and unknown probe types are refused.",
 ["inputs", "histories"], "every position, discretisation, probe type, number of updates and announced frames",
 "Tests place probes at the ends of uniform lines and never exceed the announced frames.",
 ["probes.py", "mtl.py", "utils.py"], [("Probe.__init__, update, resize_frames", "probes.py"), ("add_probe", "mtl.py: MTL, MTLD"), ("point_in_line", "utils.py")], [("t, val, index, current_frame", "record", "probes.py")], ["Probe.update"])

prop("P12", "A bundle is the uncoupled union of its lines",
 "The matrices of a bundle at each node or cell are block diagonal, with one block per line in level order and, within a level, in list order, equal to that line's own matrices (including its lumped elements) at the same node or cell. Spacing, node positions, conductor counts per level and zero initial state are those of its lines. Lines that do not share the bundle's nodes are refused.",
 ["inputs", "configurations"], "every number of levels, lines per level, conductors per line and per-node/cell matrices",
 "Test bundles have one or two levels with one line each and uniform matrices.",
 ["mtl.py"], [("MTLD.__init__", "mtl.py")], [("l, c, r, g, transfer_impedance", "bundle matrices", "mtl.py")], ["MTLD.__init__"])

prop("P13", "Transfer impedances couple exactly the declared conductors and directions",
 "Adding a transfer impedance between two adjacent levels adds minus that impedance, divided by its factor, between each listed outer and inner conductor, in the declared direction(s) only - inwards the outer current drives the inner conductor, outwards the converse, both means both - and changes no other pair. It applies along the whole bundle; a connector's replaces it at its own end cell only. Levels that are not adjacent are refused.",
 ["inputs", "configurations"], "every level structure, conductor lists, direction, factor, constant, proportional and pole terms",
 "Tests cover inward coupling of single conductors with a resistive term.",
 ["dispersive.py", "mtl.py"], [("add_transfer_impedance, set_transfer_impedance_at_index", "dispersive.py: TransferImpedance"), ("add_transfer_impedance, set_connector_transfer_impedance", "mtl.py: MTLD")], [("d, e, q1, q2, q3", "constant, proportional, pole terms", "dispersive.py")], ["MTLD.add_transfer_impedance"])

prop("P14", "Dispersive impedances are convolved exactly and lumped where they were placed",
 "The voltage drop of an impedance d + s e + sum r/(s-p) advances as the exact convolution of the pole terms with the piecewise-linear current, separately for every conductor pair and cell, with the current before and after the step. A dispersive connector acts only on its own conductor in the cell at its position, with the total impedance given; a second one in the same place, inconsistent pole lists and positions off the line are refused.",
 ["inputs", "histories"], "every pole/residue set, time step, cell, conductor, current history and spacing",
 "Tests compare a few RC/RL connectors with SPICE at 1-5 per cent tolerance on single-conductor lines.",
 ["dispersive.py", "mtl.py"], [("update_q3_phi_term, update_phi, v_sum", "dispersive.py: Dispersive"), ("add_dispersive_connector", "dispersive.py: DispersiveConnector")], [("phi", "convolution state", "dispersive.py")], ["MTL.step"])

prop("P15", "A lumped resistance or conductance has the requested total on its conductor",
 "Setting a resistance between two positions makes the series resistance of that conductor over the cells between the nodes nearest to them add up to the requested value, uniformly per unit length, and leaves every other cell, conductor and quantity as it was; at a single point the cell there (the last one at the far end) takes the whole value. Adding a conductance does the same for the shunt conductance of the nodes in the region. Both take effect from the next step.",
 ["inputs", "configurations"], "every region, conductor, value, discretisation and prior matrices",
 "Tests set one region of a uniform single-conductor line.",
 ["mtl.py"], [("set_resistance_in_region, set_resistance_at_point", "mtl.py: MTL, MTLD"), ("add_conductance_in_region, add_conductance_at_point", "mtl.py: MTL, MTLD")], [("r, g", "per-unit-length losses", "mtl.py")], ["MTL.set_resistance_in_region", "MTL.add_conductance_in_region"])

prop("P16", "Sources act at their place, at the right instants, and add up",
 "A voltage source placed at a line end drives only its conductor, at the node nearest to its position. A localised field drive along a stretch of a bundle contributes to the cells of its conductor in proportion to the part of each cell it covers (for a plane-wave drive, shared over the stretch), on top of what was there, for every instant. Combining two time functions gives their sum, scaling one gives its multiple, and each step samples transverse excitations at the present and previous instants and longitudinal ones half a step either side.",
 ["inputs", "histories"], "every stretch made of whole cells or parts of them, conductor, source function, prior excitation and instant",
 "Tests use one drive over whole cells of a uniform line.",
 ["mtl.py", "utils.py"], [("add_voltage_source, add_localized_longitudinal_field, update_sources", "mtl.py"), ("add_t_functions, multiply", "utils.py")], [("v_sources, e_L, e_T", "excitations", "mtl.py")], ["MTLD.add_localized_longitudinal_field"])

prop("P17", "Incident fields are sampled along the line as the scattered formulation requires",
 "For an incident field, the longitudinal excitation of every cell is the field component along the cell at its centre, at the conductor minus at the reference, and the transverse excitation of every node is the integral of the field from the reference to the conductor at that node. A plane wave has unit electric vector orthogonal to its direction of propagation and is delayed along it at the speed of the fastest mode. A field restricted to a stretch excites the cells of that stretch only.",
 ["inputs"], "every field expression, node positions, conductor offsets along an axis, angles and instants",
 "Tests use a field along one axis over a straight line with reference curves.",
 ["mtl.py"], [("Field.compute_eL_at_segment, PlaneWave", "mtl.py"), ("add_external_field, add_planewave", "mtl.py: MTL, MTLD")], [("e_L, e_T", "incident field terms", "mtl.py")], ["MTL.add_external_field"])

prop("P18", "Waveforms take their defining value at every instant",
 "Every numeric waveform equals its closed form at every real instant, including the break points: pulses vanish outside their support, ramps hold their final value, trapezoids are periodic, continuous and bounded by their amplitude, exponentials and Gaussians follow their parameters. The symbolic waveforms take the same values as functions of the retarded time.",
 ["inputs"], "every instant and every admissible parameter value",
 "Tests sample a couple of waveforms at points that avoid the break points.",
 ["waveforms.py"], [("exp, gaussian, square_pulse, triangle_pulse, sin_sq_pulse, trapezoidal_wave, ramp_pulse", "waveforms.py"), ("*_sp", "waveforms.py")], [], ["waveforms.*"])

prop("P19", "A description file is built into the network it describes",
 "Each cable becomes a line with its own matrices, node coordinates and divisions; each bundle nests its lines by level with the transfer impedance of the enclosing cable and of its connectors; each junction joins the listed line ends through the series resistance of their connectors, each termination closes its line ends with their connectors' elements (resistance, capacitance, series resistance with parallel LC, short), and each source and probe acts at the place and with the parameters given. The result does not depend on the order of independent entries of the file.",
 ["inputs", "programs"], "every well-formed description",
 "Tests parse a dozen fixed files and check a few attributes or curves.",
 ["jsonParser.py"], [("_buildBundles, _buildMTLfromLine", "jsonParser.py: Parser"), ("_buildJunctions, _buildTerminations", "jsonParser.py: Parser"), ("_buildSource, _getTerminalSourceInNode, _addSources, _addProbes", "jsonParser.py: Parser")], [("bundles, networks, probes", "parsed model", "jsonParser.py")], ["Parser"])

prop("P20", "Scattering parameters follow the power-wave definition and leave the line intact",
 "The incident and reflected waves at a port are (V +- Z0 I)/(2 sqrt Z0) of the spectra of the voltage averaged over the end cell and of the current averaged to the same instants, with the current counted into the line at both ends. The extracted two-port has each S parameter equal to the matching wave ratio of the run in which that port is driven, on the requested band. Extraction works on clean, independent copies: the original line's state is never altered and the copies start at rest.",
 ["inputs", "histories"], "every recorded waveform, port impedance, conductor, band and prior state of the line",
 "The existing extraction tests do not run on this commit.",
 ["probes.py", "networkExtraction.py", "mtl.py"], [("Port", "probes.py"), ("extract_s_reciprocal, extract_2p_network", "networkExtraction.py"), ("create_clean_copy, add_port_probe", "mtl.py: MTL")], [], ["networkExtraction.extract_2p_network"])

prop("P21", "Rational models and material formulas evaluate to their definitions",
 "The vector-fitting helpers return, at every frequency, the closed form they are named after: the pole-residue sum r/(j w - p), the Debye permittivity, the parallel and series RL/RC impedances and their reciprocals, and the skin-effect impedance. The Gaussian-band impedance, its reciprocal and the skin-effect impedance at its corner frequency take their closed-form values.",
 ["inputs"], "every frequency vector and parameter set",
 "No test imports these helpers.",
 ["VF/utils.py"], [("vf, epsDebye, RLpar, RCpar, RLseriesDisp, z", "VF/utils.py")], [], ["VF.utils"])

P.append(dict(id="P22", title="The Fortran prototype solves the same equations",
 statement="The Fortran line class advances the same discrete telegrapher equations as the Python solver.",
 quantifier=dict(over=["inputs"], text="every line and state"),
 why_tests_cant="There is no build or test for it in this environment.",
 anchors=dict(files=["fortran/src/class_MTL.f90"], mechanism=[dict(name="class_MTL", where="fortran/src/class_MTL.f90")])))

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
