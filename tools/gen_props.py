"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODES, KRAUS, CHOI = "PyQCodes/codes.py", "PyQCodes/chan/_kraus.py", "PyQCodes/chan/_choi.py"
CHAN, PARAM, COH = "PyQCodes/chan/channel.py", "PyQCodes/chan/param.py", "PyQCodes/chan/_coherent.py"
OPT, FIND, DEV = "PyQCodes/_optimize.py", "PyQCodes/find_codes.py", "PyQCodes/device_adaptor.py"
AVG = "PyQCodes/avgfid/avg_fidelity.py"

P = []


def prop(pid, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state))


prop("P01", "Pauli strings and binary rows are inverse encodings",
     "Every Pauli string of length n becomes the binary row whose first n bits mark X or Y and whose last n bits "
     "mark Z or Y at the same position, row i coming from string i. Every binary row converts to a Pauli string and "
     "back without loss, whatever numeric container holds it. Strings with other symbols are rejected with ValueError.",
     ["inputs"], "every list of equally long Pauli strings, every binary row, every length",
     "the tests encode a few dozen short strings; the statement is about every length, position and letter combination",
     [CODES], ["StabilizerCode.pauli_str_to_binary_representation", "StabilizerCode.binary_rep_to_pauli_str"])
prop("P02", "Binary rows denote the right matrices, and the product bit is commutation",
     "The matrix of a binary row is the tensor product of its single-qubit Pauli matrices with the first qubit "
     "leftmost (Y meaning X times Z), and the sparse form equals the dense one. The symplectic product of two rows is 0 exactly "
     "when their matrices commute and 1 exactly when they anticommute.",
     ["inputs"], "every binary row and pair of rows of any length, dense and sparse",
     "tests check a handful of rows of up to five qubits, and never the matrix/bit equivalence in general",
     [CODES], ["StabilizerCode.binary_rep_to_pauli_mat", "StabilizerCode.index_to_qubit_pauli", "StabilizerCode.inner_prod"])
prop("P03", "A code is accepted exactly when its generators commute and fit its size",
     "A stabilizer code is constructed exactly when the generators have width 2n, number n-k and commute pairwise; "
     "otherwise construction fails with an assertion error. An accepted code reports the given n, k and generators, "
     "the strings of the generators, and the logical operators given by the user unchanged, and an ill-shaped logical operator is rejected.",
     ["inputs"], "every list of Pauli strings or binary matrix, with or without user logical operators",
     "tests reject a few hand-written non-commuting sets; the anticommuting pair can be any two of the n-k rows",
     [CODES], ["StabilizerCode.__init__", "StabilizerCode._is_stabilizer_code"])
prop("P04", "The standard normal form generates the same group in standard block shape",
     "The normal form of a code is a binary matrix of shape [I A1 A2 | B C1 C2 ; 0 0 0 | D I E] whose first block has as many "
     "rows as the GF(2) rank of the X parts of the generators. After the reported relabelling of the qubits it generates exactly the group of "
     "the given generators, which themselves are left unmodified.",
     ["inputs"], "every independent commuting generator set, any n and k",
     "tests compare a few known codes; rank deficiency, pivots that need qubit swaps and late pivots occur only in particular codes",
     [CODES], ["StabilizerCode._standard_normal_form", "StabilizerCode._gaussian_elimination_first_block",
               "StabilizerCode._gaussian_elimination_second_block", "StabilizerCode._binary_rank"],
     [("qubit_order", "original qubit at every position of the normal form", "StabilizerCode._swap_qubit_order")])
prop("P05", "Derived logical operators satisfy the Pauli algebra of k qubits",
     "For every code the derived logical X and Z operators are k rows each that commute with every element of the normal form of the code. "
     "All logical X commute with each other, all logical Z commute with each other, and logical X i anticommutes with logical Z j exactly when i = j.",
     ["inputs"], "every independent commuting generator set with k >= 1",
     "tests look at four textbook codes; the algebra must hold for every block shape",
     [CODES], ["StabilizerCode.logical_operators", "StabilizerCode._matrix_blocks_standard_form"])
prop("P06", "The encoding isometry maps onto the joint +1 eigenspace",
     "The encoding operators of a code form an isometry from k to n qubits whose range is exactly the joint +1 eigenspace of the "
     "generators in the qubit order they were given (a generator with an odd number of Y standing for i times its real matrix). The sparse and dense forms agree.",
     ["inputs"], "every independent commuting generator set",
     "tests check the encoding of a few codes; projections, ranks and signs differ for every code",
     [CODES], ["StabilizerCode.encode_krauss_operators"])
prop("P07", "Encoding and decoding circuits are coherent and land in the code space",
     "Running the encoding circuit on a basis state of k qubits gives an eigenvector of every normal-form generator with eigenvalues that do not depend on "
     "the state, on which logical Z i reads bit i, and different basis states give orthogonal states. Running the decoding circuit on any "
     "superposition of encoded states returns that superposition coherently on k qubits.",
     ["inputs"], "every code, every basis state and superposition",
     "tests run the circuits on a few codes and basis states; coherence over superpositions is never sampled for all codes",
     [CODES], ["StabilizerCode.encoding_circuit", "StabilizerCode.decoding_circuit"])
prop("P08", "A syndrome measurement reads the commutation bit and spares the state",
     "Measuring a generator (or any Pauli element that stands for an operator fixing the encoded states, with i times the real matrix for an odd number of Y) "
     "on an encoded state hit by a Pauli error returns 0 when the error commutes with the element and 1 when it anticommutes, for elements given in any accepted form and with or without a supplied ancilla. The data qubits are left in the same state, "
     "and a register of another size is rejected with TypeError.",
     ["inputs", "histories"], "every code, measured element, encoded state and Pauli error",
     "tests measure a few errors on a few codes",
     [CODES], ["StabilizerCode.single_syndrome_measurement"])
prop("P09", "Recovery operators pair every error with an anticommuting generator",
     "The corrected operator list has one entry per given error: the error preceded by a generator that anticommutes with it when one exists, and the error alone otherwise. "
     "It keeps the order and number of the errors, dense and sparse alike.",
     ["inputs"], "every code and list of Pauli errors",
     "tests use one code and single-qubit errors",
     [CODES], ["StabilizerCode.kraus_operators_correcting_errors"])
prop("P10", "Undetectable errors are the normalizer without the stabilizer group",
     "The listed elements are exactly the Pauli elements that commute with every generator and are not products of generators, each once.",
     ["inputs"], "every code",
     "no test calls these methods successfully; they quantify over all 4^n Pauli elements",
     [CODES], ["StabilizerCode.normalizer", "StabilizerCode.undetectable_errors"])
prop("P11", "Concatenation encodes outer generators in the logical operators of blocks",
     "Concatenating an outer and an inner code yields the inner generators on every block followed by each outer generator with every Pauli replaced by the "
     "logical operator of its inner block. The result is again a commuting set with the right number of qubits, and sizes that do not divide are rejected with ValueError.",
     ["inputs"], "every pair of codes whose sizes are compatible",
     "tests concatenate two pairs with the same inner logical operators on X and Z",
     [CODES], ["StabilizerCode.concatenate_codes"])
prop("P12", "Pauli circuits and logical circuits act as the operators they name",
     "Applying a Pauli element to a register applies its letter q to qubit q and nothing else, whether given as a string, list or array. A logical request Xi, Zi or Yi "
     "applies logical X i, logical Z i or both, and requests that name no logical operator are rejected.",
     ["inputs"], "every Pauli element, register and logical request",
     "tests apply a few strings",
     [CODES], ["StabilizerCode.apply_stabilizer_circuit", "StabilizerCode.logical_circuit"])
prop("P13", "A channel given by Kraus operators acts as their sum, and its adjoint is dual",
     "Applying a channel n-fold to a matrix gives the sum of K rho K^H over all n-fold Kraus operators, for one matrix or a batch, dense or sparse, any input "
     "and output dimension. The adjoint satisfies tr(X N(rho)) = tr(N*(X) rho) for every X and rho.",
     ["inputs"], "every Kraus set, dimension, n and matrix or batch of matrices",
     "tests use bit-flip, dephasing and amplitude damping on a few states",
     [KRAUS, CHAN], ["DenseKraus.channel", "SparseKraus.channel", "AnalyticQChan.channel"])
prop("P14", "The complementary channel is the entropy exchange matrix",
     "The complementary output has entries tr(K_i rho K_j^H) over the n-fold Kraus operators, and its adjoint is dual to it. When groups of Kraus operators "
     "are declared mutually orthogonal, the returned blocks are exactly the diagonal blocks of that matrix and nothing outside them is lost.",
     ["inputs", "configurations"], "every Kraus set, grouping, n and matrix",
     "tests use real, square, single-qubit Kraus operators and one grouping",
     [KRAUS, CHAN], ["DenseKraus.entropy_exchange", "SparseKraus.entropy_exchange", "AnalyticQChan.entropy_exchange"])
prop("P15", "Results for n copies do not depend on which n were asked before",
     "After any sequence of requests for different numbers of copies, the operators used for n copies are exactly the n-fold tensor products of the given Kraus operators, "
     "with their adjoints and exchanged forms matching. Any query therefore gives the same answer as on a fresh channel.",
     ["histories"], "every finite history of requests n1, n2, ... on one channel object, dense and sparse",
     "tests raise n by one from 1; histories that jump up or back are unbounded in number",
     [KRAUS, CHAN], ["Kraus.update_kraus_operators", "SparseKraus._tensor_kraus_operators",
                     "DenseKraus._tensor_kraus_operators", "AnalyticQChan._update_channel_tensored"],
     [("_numb_chan_calls", "number of copies the cached operators stand for", "Kraus.__init__"),
      ("_nth_kraus_ops", "cached n-fold operators", "Kraus.__init__")])
prop("P16", "Channel sum and product are serial and parallel composition",
     "A + B is the channel that applies B first and then A, and A * B applies A to the first and B to the second subsystem. Both report the right "
     "input and output dimensions and particle numbers, for dense and sparse channels alike, and incompatible dimensions are rejected.",
     ["inputs"], "every pair of channels of any dimensions",
     "tests compose square single-qubit channels, where most index mistakes are invisible",
     [KRAUS, CHAN], ["DenseKraus.serial_concatenate", "SparseKraus.serial_concatenate", "DenseKraus.parallel_concatenate",
                     "SparseKraus.parallel_concatenate", "DenseKraus.__add__", "SparseKraus.__add__", "DenseKraus.__mul__",
                     "SparseKraus.__mul__", "AnalyticQChan.__add__", "AnalyticQChan.__mul__"])
prop("P17", "Only trace-preserving operators of the stated dimensions make a channel",
     "A channel is accepted exactly when the sum of K^H K is the identity and every operator has the stated output and input dimension, dense and sparse alike. "
     "Operators of unsupported types are rejected with TypeError.",
     ["inputs"], "every list or array of operators and every stated dimension",
     "tests reject two operator sets",
     [KRAUS, CHAN], ["Kraus.__init__", "DenseKraus.is_trace_perserving", "SparseKraus.is_trace_perserving", "AnalyticQChan.__init__"])
prop("P18", "The Choi form is the same channel as its Kraus form",
     "A channel given by a Choi matrix acts exactly like the Kraus operators it was built from, including different input and output dimensions. Its extracted "
     "Kraus operators reproduce the Choi matrix, its complementary output has the spectrum of the entropy exchange matrix, and matrices that are "
     "not positive, not trace preserving or of another size are rejected.",
     ["inputs"], "every completely positive trace-preserving map",
     "tests use single-qubit dephasing-like channels",
     [CHOI, CHAN], ["ChoiQutip.__init__", "ChoiQutip.channel", "ChoiQutip.kraus_operators", "ChoiQutip.complementary_channel"])
prop("P19", "Average entanglement fidelity equals its definition in every representation",
     "For probabilities p_i and states rho_i the average entanglement fidelity is the sum of p_i |tr(K rho_i)|^2 over states and Kraus operators, for dense, sparse "
     "and Choi representations alike. A Choi channel between different dimensions is rejected.",
     ["inputs"], "every ensemble and channel",
     "the tests compare one channel and accept a value that differs from the definition",
     [KRAUS, CHOI, CHAN], ["DenseKraus.average_entanglement_fidelity", "SparseKraus.average_entanglement_fidelity",
                           "ChoiQutip.average_entanglement_fidelity", "AnalyticQChan.average_entanglement_fidelity"])
prop("P20", "Entropy, coherent information and fidelity equal their definitions",
     "Entropy is -tr(rho log2 rho), with the sum over blocks for a list, and coherent information is the entropy of the n-fold output minus that of the n-fold complementary "
     "output, divided by n when regularized. Declaring orthogonal Kraus groups does not change it, and the fidelity of a state under the channel is tr sqrt(sqrt(rho) N(rho) sqrt(rho)) also for singular states.",
     ["inputs", "configurations"], "every channel, state, n and valid grouping",
     "tests sample a few channels and full-rank states",
     [CHAN, KRAUS], ["AnalyticQChan.entropy", "AnalyticQChan.coherent_information", "AnalyticQChan.fidelity_two_states",
                     "AnalyticQChan.entropy_exchange"])
prop("P21", "Parameterizations map every vector to a density matrix and back",
     "Every nonzero parameter vector of the declared length maps to a density matrix of at most the declared rank, and converting a density matrix "
     "of that rank to a vector and back returns it. Bounds and random vectors have the declared length and random vectors lie inside the bounds.",
     ["inputs"], "every vector, density matrix, size and rank",
     "tests use a few sizes and full rank",
     [PARAM], ["OverParam.rho_from_vec", "OverParam.vec_from_rho", "CholeskyParam.rho_from_vec", "CholeskyParam.vec_from_rho",
               "StandardBasis.rho_from_vec", "StandardBasis.vec_from_rho", "OverParam.bounds", "CholeskyParam.bounds",
               "OverParam.numb_variables", "CholeskyParam.numb_variables"])
prop("P22", "Optimizers report their best candidate, consistently",
     "Whatever the local solver does, the reported optimum, state and success flag belong to the best of the starts, and re-evaluating the objective at the reported state gives "
     "the reported value (divided by n when regularized). The Lipschitz sampler keeps a start exactly when no earlier start's upper bound rules it out, and bad options are rejected.",
     ["inputs", "configurations"], "every channel, objective, parameterization, set of starts and solver outcome",
     "tests run real solvers on a few channels and compare known maxima within loose tolerances",
     [COH, OPT, CHAN], ["optimize_procedure", "_optimize_samples_slsqp", "_optimize_differential_evol",
                        "_use_multi_processes", "initial_guesses_lipschitz"])
prop("P23", "The unitary 2-design is undone by its inverse and estimates average fidelity",
     "The inverse circuit undoes the sampled circuit on every state of the register, and the sampled circuit is the documented alternation of random diagonal phases and Hadamards. "
     "The estimate is the fraction of trials in which the register returns to zero, so it is 1 for the identity channel, and every trial starts from the all-zero register (a real device is not reset).",
     ["inputs", "histories"], "every register size, precision and random phases",
     "tests run one or two registers with random phases",
     [DEV, FIND], ["ProjectQDeviceAdaptor.approximate_unitary_two_design", "ProjectQDeviceAdaptor.inverse_of_unitary_two_design",
                   "ProjectQDeviceAdaptor.estimate_average_fidelity", "QDeviceChannel.estimate_average_fidelity_channel",
                   "QDeviceChannel.estimate_average_fidelity_error_code"])
prop("P24", "The effective channel is recovery after the error after the encoder",
     "Optimizing a stabilizer code over a Pauli error channel optimizes the channel that encodes, applies the n-fold error and then the "
     "recovery of every error, with the user's own options and objective. Wrong objectives and error dimensions are rejected with TypeError.",
     ["inputs", "configurations"], "every code, Pauli error channel, objective and option",
     "tests run the five-qubit code with default options",
     [FIND], ["effective_channel_with_stabilizers", "effective_coherent_info"])
prop("P25", "Encoder and decoder optimization evaluates what it reports",
     "Each evaluation runs the encoder with the first group of parameters, the channel, and the decoder with the remaining parameters, and the average fidelity is maximized. "
     "The reported parameters and value are those of the best evaluation, and wrong bounds or unknown optimizers are rejected.",
     ["inputs", "configurations"], "every encoder/decoder, parameter count and optimizer",
     "no test runs the optimization",
     [FIND], ["QDeviceChannel.optimize_encoder_decoder_average_fidelity"])
prop("P26", "The semidefinite programs state average entanglement fidelity maximization",
     "The program for optimal encoders and decoders maximizes the average entanglement fidelity with the maximally mixed logical state over exactly the completely "
     "positive trace-preserving maps of the right dimensions. The optimal decoder of a code is that of the n-fold error channel after the code's encoder, and is never worse than recovering by syndrome.",
     ["inputs"], "every Kraus set and stabilizer code",
     "tests solve a few small programs with real Kraus operators",
     [AVG, CHOI], ["_optimize_average_entang_fid", "optimize_decoder_stabilizers", "ChoiQutip.constraint_partial_trace"])


def where(files, name):
    """'file:function' (no line numbers: they move)."""
    last = name.split(".")[-1]
    cls = name.split(".")[0] if "." in name else None
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        if cls and not re.search(r"^class %s\b" % cls, src, re.M):
            continue
        if re.search(r"^\s*def %s\b" % re.escape(last), src, re.M):
            return "%s:%s" % (f, name)
    raise SystemExit("no anchor for " + name)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            d = dict(id=p["pid"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=m, where=where(p["files"], m)) for m in p["mech"]]))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=where(p["files"], c)) for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(d) + "\n")


if __name__ == "__main__":
    main()
