"""Parameters of the predefined materials (name: kind, oscillators, magnetic).
Frozen copy, so that the checks do not read them back from the code under test."""
TABLE = {
    'Altern1Ps': ('lorentz', [(167000000000.0, 1520000000000.0, 0.0), (2970000000000.0, 20100000000000.0, 0.0), (789000000000000.0, 5890000000000000.0, 0.0), (34800000000000.0, 199000000000000.0, 0.0), (5010000000000000.0, 9100000000000000.0, 0.0), (1.22e+16, 1.55e+16, 0.0), (1.63e+16, 2.86e+16, 0.0), (1.42e+16, 7.82e+16, 0.0)], ()),
    'Altern2Ps': ('lorentz', [(31700000000000.0, 179000000000000.0, 0.0), (148000000000.0, 1370000000000.0, 0.0), (2660000000000.0, 18100000000000.0, 0.0), (227000000000000.0, 2370000000000000.0, 0.0), (5030000000000000.0, 9300000000000000.0, 0.0), (1.24e+16, 1.53e+16, 0.0), (1.98e+16, 3.07e+16, 0.0), (1.52e+16, 1.04e+17, 0.0)], ()),
    'AlternEth': ('lorentz', [(2410000000000.0, 2460000000000.0, 0.0), (8350000000000.0, 6560000000000.0, 0.0), (63700000000000.0, 170000000000000.0, 0.0), (3700000000000000.0, 1.04e+16, 0.0), (1.49e+16, 2.31e+16, 0.0), (1.17e+16, 2.37e+16, 0.0), (1.77e+16, 6.65e+16, 0.0)], ()),
    'Artificial': ('lorentz', [(1e+18, 0.0, 0.0)], ()),
    'Bromobenzene': ('lorentz', [(1780000000000.0, 7630000000000.0, 0.0), (6370000000000.0, 46900000000000.0, 0.0), (36800000000000.0, 169000000000000.0, 0.0), (7480000000000000.0, 1.03e+16, 0.0), (1.62e+16, 2.02e+16, 0.0), (1.79e+16, 3.65e+16, 0.0), (1.46e+16, 1.52e+17, 0.0)], ()),
    'Ethanol': ('lorentz', [(3222530682553697.5, 660000000000000.0, 1000000000000.0), (1.0522638452403466e+16, 1.14e+16, 1000000000000.0)], ()),
    'Gold': ('lorentz', [(1.37e+16, 0.0, 57700000000000.0)], ()),
    'Gold_Bimonte': ('lorentz', [(1.37e+16, 0.0, 53200000000000.0)], ()),
    'Gold_magnetic': ('lorentz', [(1.37e+16, 0.0, 57700000000000.0)], (4, 1000000000.0)),
    'Gold_plasma': ('lorentz', [(1.37e+16, 0.0, 0.0)], ()),
    'Gold_plasma_wp01': ('lorentz', [(1370000000000000.0, 0.0, 0.0)], ()),
    'Gold_plasma_wp1': ('lorentz', [(1.37e+16, 0.0, 0.0)], ()),
    'Gold_plasma_wp10': ('lorentz', [(1.37e+17, 0.0, 0.0)], ()),
    'Mercury': ('lorentz', [(5400000000000000.0, 0.0, 250000000000000.0)], ()),
    'MercurySmith': ('smith', [(1.98e+16, 0.0, 1647000000000000.0)], ()),
    'MercurySmith_plasma': ('lorentz', [(1.98e+16, 0.0, 0.0)], ()),
    'Mercury_plasma': ('lorentz', [(5400000000000000.0, 0.0, 0.0)], ()),
    'PerfectConductor': ('pec', [], ()),
    'Polystyrene': ('lorentz', [(110800000000000.0, 554000000000000.0, 0.0), (2.106e+16, 1.35e+16, 0.0)], ()),
    'Ptfe': ('lorentz', [(44000000000.0, 456000000000.0, 0.0), (1560000000000.0, 11500000000000.0, 0.0), (31500000000000.0, 84600000000000.0, 0.0), (64100000000000.0, 191000000000000.0, 0.0), (4500000000000000.0, 1.02e+16, 0.0), (1.87e+16, 2.83e+16, 0.0), (2.08e+16, 6.4e+16, 0.0), (2.32e+16, 1.18e+17, 0.0)], ()),
    'SiC': ('lorentz', [(700000000000000.0, 0.0, 150000000000000.0)], ()),
    'SiC_plasma': ('lorentz', [(700000000000000.0, 0.0, 0.0)], ()),
    'Silicon': ('lorentz', [(55300000000000.0, 62400000000000.0, 0.0), (76700000000000.0, 170000000000000.0, 0.0), (110000000000000.0, 170000000000000.0, 0.0), (106000000000000.0, 169000000000000.0, 0.0), (4930000000000000.0, 2.2e+16, 0.0), (2.34e+16, 2.58e+16, 0.0), (5760000000000000.0, 1.24e+16, 0.0), (3.26e+16, 1.39e+17, 0.0)], ()),
    'Silver': ('lorentz', [(1.46e+16, 0.0, 34600000000000.0)], ()),
    'Silver_plasma': ('lorentz', [(1.46e+16, 0.0, 0.0)], ()),
    'Vacuum': ('lorentz', [], ()),
    'Water': ('lorentz', [(41600000000000.0, 34800000000000.0, 0.0), (4160000000000.0, 1330000000000.0, 0.0), (11000000000000.0, 7490000000000.0, 0.0), (114000000000000.0, 156000000000000.0, 0.0), (9000000000000000.0, 1.44e+16, 0.0), (1.63e+16, 3.18e+16, 0.0), (1.48e+16, 4.01e+16, 0.0)], ()),
    'modifiedWater': ('lorentz', [(800000000000.0, 100000000000.0, 0.0), (41600000000000.0, 34800000000000.0, 0.0), (4160000000000.0, 1330000000000.0, 0.0), (11000000000000.0, 7490000000000.0, 0.0), (114000000000000.0, 156000000000000.0, 0.0), (9000000000000000.0, 1.44e+16, 0.0), (1.63e+16, 3.18e+16, 0.0), (1.48e+16, 4.01e+16, 0.0)], ()),
}
