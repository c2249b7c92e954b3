"""What decides each property."""
GATES = {"module": "MC_Gates"}
CIRC = {"module": "MC_Circ"}
BACK = {"module": "MC_Backend", "cfg": "MC_Backend", "cfg_thorough": "MC_Backend_t"}
MEAS = {"module": "MC_Meas"}
DIST = {"module": "MC_Dist"}
EST = {"module": "MC_Est"}
OP = [{"module": "MC_Op"}, {"module": "MC_Op", "cfg": "MC_Op_t", "thorough_only": True}]
FERM = [{"module": "MC_Ferm"}, {"module": "MC_Ferm", "cfg": "MC_Ferm_t", "thorough_only": True}]
HIST = [{"module": "MC_Hist"}, {"module": "MC_Hist", "cfg": "MC_Hist_t", "thorough_only": True}]
STORE = {"module": "MC_Store"}
PLAN = {
    "C01": {"mc": [CIRC], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 300},
    "C02": {"mc": [GATES], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 300},
    "C03": {"mc": [CIRC], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 200, "needs_gen": True},
    "C05": {"mc": [CIRC], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 200},
    "C07": {"mc": [{"module": "MC_NatKey"}], "driver": "d_circ", "tv": "TV_Sym", "min_sessions": 500},
    "C08": {"mc": [{"module": "MC_Layout"}, CIRC], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 200},
    "C09": {"mc": [{"module": "MC_Decomp"}], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 200},
    "C04": {"mc": [CIRC], "driver": "d_circ", "tv": "TV_Circ", "min_sessions": 150},
    "C10": {"mc": [{"module": "MC_Evol"}], "driver": "d_sim", "tv": "TV_Sim", "min_sessions": 150},
    "C06": {"mc": [CIRC], "driver": "d_sim", "tv": "TV_Sim", "min_sessions": 300},
    "B01": {"mc": [BACK], "driver": "d_sim", "tv": "TV_Sim", "min_sessions": 300, "needs_gen": True},
    "B02": {"mc": [BACK], "driver": "d_sim", "tv": "TV_Sim", "min_sessions": 100, "needs_gen": True},
    "B03": {"mc": [{"module": "MC_Wave"}, {"module": "MC_Wave", "cfg": "MC_Wave_t", "thorough_only": True}], "driver": "d_sim", "tv": "TV_Sim", "min_sessions": 400, "needs_gen": True},
    "M01": {"mc": [MEAS], "driver": "d_meas", "tv": "TV_Meas", "min_sessions": 300, "needs_gen": True},
    "M02": {"mc": [MEAS], "driver": "d_meas", "tv": "TV_Meas", "min_sessions": 500},
    "M03": {"mc": [DIST], "driver": "d_meas", "tv": "TV_Meas", "min_sessions": 300},
    "M04": {"mc": [DIST], "driver": "d_meas", "tv": "TV_Meas", "min_sessions": 400},
    "M05": {"mc": [DIST], "driver": "d_meas", "tv": "TV_Meas", "min_sessions": 500},
    "E01": {"mc": [EST], "driver": "d_est", "tv": "TV_Est", "min_sessions": 300, "needs_gen": True},
    "E02": {"mc": [EST], "driver": "d_est", "tv": "TV_Est", "min_sessions": 200},
    "E03": {"mc": [EST], "driver": "d_est", "tv": "TV_Est", "min_sessions": 300},
    "E04": {"mc": [EST], "driver": "d_est", "tv": "TV_Est", "min_sessions": 300, "needs_gen": True},
    "E05": {"mc": [EST], "driver": "d_est", "tv": "TV_Est", "min_sessions": 250},
    "H01": {"mc": HIST, "driver": "d_hist", "tv": "TV_Hist", "min_sessions": 200, "needs_gen": True},
    "H02": {"mc": HIST[:1], "driver": "d_hist", "tv": "TV_Hist", "min_sessions": 200},
    "H03": {"mc": HIST[:1], "driver": "d_hist", "tv": "TV_Hist", "min_sessions": 300},
    "A01": {"mc": [{"module": "MC_Ansatz"}, {"module": "MC_Ansatz", "cfg": "MC_Ansatz_t", "thorough_only": True}], "driver": "d_ansatz", "tv": "TV_Ansatz", "min_sessions": 200, "needs_gen": True},
    "O01": {"mc": OP, "driver": "d_op", "tv": "TV_Op", "min_sessions": 300, "needs_gen": True},
    "O02": {"mc": FERM, "driver": "d_op", "tv": "TV_Op", "min_sessions": 300},
    "O03": {"mc": FERM, "driver": "d_op", "tv": "TV_Op", "min_sessions": 300},
    "O04": {"mc": [STORE], "driver": "d_store", "tv": "TV_Store", "min_sessions": 300, "needs_gen": True},
    "O05": {"mc": [{"module": "MC_OpMat"}, {"module": "MC_OpMat", "cfg": "MC_OpMat_t", "thorough_only": True}], "driver": "d_mat", "tv": "TV_Mat", "min_sessions": 800},
    "O06": {"mc": [{"module": "MC_Ten"}, {"module": "MC_Ten", "cfg": "MC_Ten_t", "thorough_only": True}], "driver": "d_ten", "tv": "TV_Ten", "min_sessions": 300},
    "O07": {"mc": [{"module": "MC_Chem"}, {"module": "MC_Chem", "cfg": "MC_Chem_t", "thorough_only": True}], "driver": "d_chem", "tv": "TV_Chem", "min_sessions": 400},
    "O08": {"mc": [{"module": "MC_Mol"}, {"module": "MC_Mol", "cfg": "MC_Mol_t", "thorough_only": True}], "driver": "d_mol", "tv": "TV_Mol", "min_sessions": 100},
    "W01": {"mc": [{"module": "MC_Steps"}, {"module": "MC_Steps", "cfg": "MC_Steps_t", "thorough_only": True}], "driver": "d_steps", "tv": "TV_Steps", "min_sessions": 30},
    "W02": {"mc": [{"module": "MC_Version"}, {"module": "MC_Version", "cfg": "MC_Version_t", "thorough_only": True}], "driver": "d_version", "tv": "TV_Version", "min_sessions": 50},
    "T01": {"mc": [{"module": "MC_Tools"}, {"module": "MC_Tools", "cfg": "MC_Tools_t", "thorough_only": True}], "driver": "d_tools", "tv": "TV_Tools", "min_sessions": 200},
    "U01": {"mc": [STORE], "driver": "d_store", "tv": "TV_Store", "min_sessions": 300, "needs_gen": True},
    "U02": {"mc": [{"module": "MC_Util"}], "driver": "d_store", "tv": "TV_Store", "min_sessions": 500},
    "U03": {"mc": [STORE, {"module": "MC_Util"}], "driver": "d_store", "tv": "TV_Store", "min_sessions": 300},
}
