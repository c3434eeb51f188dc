"""What each check runs: model configurations (TLC module, configuration, mode) and the number of
random executions recorded and judged.  {tier} is quick or thorough."""

SIZE = ["values of at most 70 nodes in the recorded direction"]
LAYOUT = ["identities and field names are spellable in the notation"] + SIZE

CHECKS = {
    "K01": {"mc": [("MC_Cfg", "MC_Cfg_{tier}.cfg", "replay")], "n": 30000, "assumptions": LAYOUT},
    "K02": {"mc": [("MC_Fmt", "MC_Fmt_{tier}.cfg", "replay")], "n": 30000, "assumptions": LAYOUT},
    "K03": {"mc": [("MC_Fmt", "MC_Fmt_{tier}.cfg", "replay")], "n": 24000, "assumptions": LAYOUT},
    "K04": {"mc": [("MC_Fmt", "MC_Fmt_{tier}.cfg", "replay")], "n": 24000,
            "assumptions": SIZE + ["characters of the basic multilingual plane",
                                     "strings leave at least one of the seventeen usual delimiters unused"]},
    "K05": {"mc": [("MC_Cfg", "MC_Cfg_{tier}.cfg", "replay")], "n": 24000, "assumptions": SIZE},
    "K06": {"mc": [("MC_Fmt", "MC_Fmt6_{tier}.cfg", "replay")], "n": 24000, "assumptions": SIZE},
    "K07": {"mc": [("MC_Tok", "MC_Tok_names_{tier}.cfg", "exec"), ("MC_Edit", "MC_Edit_{tier}.cfg", "exec")], "n": 40000},
    "K08": {"mc": [("MC_Sty", "MC_Sty_{tier}.cfg", "replay")], "n": 16000},
    "K09": {"mc": [("MC_Tok", "MC_Tok_marks_{tier}.cfg", "replay"), ("MC_Tok", "MC_Tok_rows_{tier}.cfg", "replay"),
                   ("MC_Tok", "MC_Tok_blocks_{tier}.cfg", "replay"), ("MC_Tok", "MC_Tok_pairs_{tier}.cfg", "replay"),
                   ("MC_Tok", "MC_Tok_lists_{tier}.cfg", "replay"), ("MC_Tok", "MC_Tok_names_{tier}.cfg", "replay"),
                   ("MC_Tok", "MC_Tok_blanks_{tier}.cfg", "replay"), ("MC_Tok", "MC_Tok_nests_{tier}.cfg", "replay"),
                   ("MC_Edit", "MC_Edit_{tier}.cfg", "exec")],
            "n": 40000},
    "K10": {"mc": [("MC_Num", "MC_Num_{tier}.cfg", "exec")], "n": 60000},
    "K11": {"mc": [("MC_Num", "MC_Num_{tier}.cfg", "exec")], "n": 80000},
    "K12": {"mc": [("MC_NumTxt", "MC_NumTxt_{tier}.cfg", "exec"), ("MC_Num", "MC_Num_{tier}.cfg", "exec")], "n": 24000},
    "K13": {"mc": [("MC_Ord", "MC_Ord_{tier}.cfg", "exec")], "n": 16000},
    "K14": {"mc": [("MC_Serde", "MC_Serde_{tier}.cfg", "exec")], "n": 30000},
    "K15": {"mc": [("MC_Serde", "MC_Serde_{tier}.cfg", "exec")], "n": 40000},
    "K16": {"mc": [("MC_Serde", "MC_SerdeX_{tier}.cfg", "exec")], "n": 40000},
    "K17": {"mc": [("MC_Serde", "MC_Serde_{tier}.cfg", "exec")], "n": 50000},
    "K18": {"mc": [("MC_Nav", "MC_Nav_{tier}.cfg", "replay")], "n": 16000},
    "K19": {"mc": [("MC_Nav", "MC_Nav_{tier}.cfg", "replay")], "n": 30000},
    "K20": {"mc": [("MC_Names", "MC_Names_{tier}.cfg", "exec")], "n": 40000},
    "K21": {"mc": [("MC_Store", "MC_Store21_{tier}.cfg", "exec")], "n": 10000},
    "K22": {"mc": [("MC_Store", "MC_Store22_{tier}.cfg", "exec")], "n": 6000},
    "K23": {"mc": [("MC_Conv", "MC_Conv_{tier}.cfg", "exec")], "n": 60000},
    "K24": {"mc": [("MC_Rep", "MC_Rep_{tier}.cfg", "exec"), ("MC_Tok", "MC_Tok_marks_{tier}.cfg", "exec"),
                   ("MC_Edit", "MC_Edit_{tier}.cfg", "exec")], "n": 8000},
    "K25": {"mc": [("MC_Hold", "MC_Hold_{tier}.cfg", "exec")], "n": 20000},
    "K26": {"mc": [("MC_Show", "MC_Show_{tier}.cfg", "replay")], "n": 20000},
    "K27": {"mc": [("MC_Refuse", "MC_Refuse_{tier}.cfg", "exec")], "n": 40000},
    "K28": {"mc": [("MC_Place", "MC_Place_{tier}.cfg", "exec")], "n": 20000},
}
