"""Level claimed per property, and what it assumes."""
PROOF = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P20 P21 P22 P23 P24 P25 P26".split()
LEVEL = {p: "proof" for p in PROOF}
LEVEL["P19"] = "other"
ARITH = "Exact real/complex arithmetic and unbounded integers; numpy/scipy calls are trusted models (listed in the evidence); "
NOTE = {p: ARITH + "all obligations hold for every size and input. The executable contracts run beside them are bounded." for p in PROOF}
NOTE["P19"] = ARITH + "the Choi fidelity is proved; the Kraus ones disagree with the definition (known finding P19-dense, P19-sparse)."
