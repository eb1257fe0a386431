"""Regenerates /verif/known-findings.json (open findings and repaired defects)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 dict(id="KF1", property="P20", what="networkExtraction.getSolvedProbesFromLine reads line.x, an attribute lines do not have (AttributeError on every call); with the obvious repair (line.u) a test of the repository's stable set runs for more than five minutes, so it is left open and the check binds x to u before it calls the extraction"),
 dict(id="KF2", property="P08", what="recursive-convolution coefficients q1..q3 of dispersive connectors and transfer impedances with poles keep the time step in force when they were added: a line or network run with another (forced) time step uses stale coefficients"),
 dict(id="KF3", property="P04", what="two elements with their own voltage sources on one network node cannot be represented: connect_nodes adds their source stamps and their source functions separately (R1||R2 both driven), connect_to_ground keeps only the last source"),
 dict(id="KF4", property="P19", what="a termination connector Conn_sRLC with inductance or finite capacitance is built as its resistance alone; connectors of junctions other than a resistance or a short are ignored"),
 dict(id="KF5", property="P13", what="a second transfer impedance with poles on a pair that already has poles: add_transfer_impedance adds the decay factors exp(p dt) of the two pole lists to each other instead of keeping one term per pole, so the convolution of neither is advanced (constant and proportional terms do add up)"),
]
FIXED = """41bf72b P13 a transfer impedance with direction "both" coupled in one direction only
d76370b P14 poles of transfer impedances and connectors decayed with the wrong sign in the recursive convolution
216b256 P14 one convolution state was shared by all conductor pairs of a cell
ae30e3f P19 only the first lumped element of a line was built
c5cd0f1 P19 termination nodes were given the connector and source of another node
360d864 P10 lines with different division counts per segment had misplaced nodes
c5640e2 P08 a forced time step did not reach connectors and probes
1d0b8cf P15 a lumped resistance was written to every conductor, without regard to the spacing
3a90b5f P15 a lumped conductance was written to every conductor, without regard to the spacing
0943981 P14 the previous current of the convolution was the new one (aliased array)
5a1899a P17 longitudinal incident field sampled at nodes instead of cell centres
a78536d P17 transverse incident field of the last node sampled at the node before it
4bfe5e6 P20 port probes read attribute x, which lines do not have
ea014a2 P20 clean copies kept the dispersive state of the line
0c50d89 P08 running a stand-alone line with a forced time step kept the terminal terms of another one
3de6019 P11 bundle probes were accepted past the end of the line
4a1510b P05 networks registered in bulk were not attached to their lines
000c3ae P08 bundles and probes of a network run used different time steps
84dc25e P03 network nodes ignored the conductance of the line
1175956 P05 networks drove the wrong conductor of bundles with several lines per level
089c2ac P05 networks kept the transverse field the bundle had when they were created
ed48f49 P04 a second element on a node replaced the stamps of the first
f7010fe P04 signs of the series-R parallel-LC state equations
3617483 P18 trapezoidal and ramp waveforms were doubled at their break points
cdbe83e P13 a transfer impedance with several poles acted on some cells only
d070e78 P19 sources of unknown type made the run fail instead of being null
f1c26d3 P19 lines of one level were ordered by an unordered set
7d6a76a P19 two networks at the same point and level replaced each other
4800d3f P11 single-line probes were accepted off the line and refused on it
9f9c888 P14 a dispersive connector at the far end raised an index error
eaff7d8 P14 dispersive connectors off the line were accepted, valid ones refused
e93cdd9 P17 an incident field restricted to a stretch excited cells outside it
a547d8d P16 a localised drive did not cover the cells in proportion
11ca308 P16 localised drives off the line were accepted, valid ones refused
9c66cc0 P18 symbolic ramps were not functions of the retarded time
fef9260 P19 only one connector of a termination was applied
b8660c8 P11 the first frame of a probe with no announced frames changed after it was recorded
ded6956 P12 blocks of a bundle followed the order of the dictionary instead of the level numbers
33e87b6 P13 a connector without poles kept the poles of the bundle's transfer impedance
903300e P14 conductor pairs with different numbers of poles on one conductor raised an error
97939ec P17 plane waves added to a network of bundles raised an error
7b71dd2 P21 the impedance of the skin-effect model doubled at its corner frequency
b2d6a09 P20 a port's current probe read the second cell depending on the rounding of the end cell's centre
cdf8f18 P20 a port's terminal was decided by its position being the origin
32948e4 P11 positions on an oblique line were refused because of the rounding of their distance to its ends
26925f7 P05 networks joining cables of different levels raised an error or drove the conductor of another cable
baf8712 P19 distributed sources acted on the first conductors of the bundle whatever their cable
1764d0f P19 only the first of the terminal sources at a node was applied
80c48c0 P19 zero resistances at a termination left the conductor open and sources on shorts were dropped
568a60f P11 positions aside of a line with short cells were accepted"""
L = [dict(d, status="open") for d in OPEN]
for i, l in enumerate(FIXED.splitlines()):
    h, p, t = l.split(" ", 2)
    L.append(dict(id=f"F{i + 1}", property=p, status="fixed", commit=h, what=t, line=f"fixed: property={p} {h} {t}"))
json.dump(L, open(os.path.join(HERE, "known-findings.json"), "w"), indent=1)
