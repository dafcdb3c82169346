NOTES = ("Every check runs the real pyGSTi code from /repo's working tree (extensions rebuilt when their sources changed) "
         "under bounded-exhaustive exploration: operation histories against a reference model, input spaces against an "
         "independent oracle, or schedules under a controlled scheduler.")
# id -> (technique, level, level_note)
C = {}
NA = {}
C['C01'] = ("bounded-exhaustive enumeration of label contents (names x state-space labels x args x times, layers and "
            "sub-circuits nested to depth 2) run through the real Label classes and compared with a reference denotation",
            'exploration', "every label of the stated alphabet; all ordered pairs for equality/hash")
C['C02'] = ("exhaustive enumeration of token strings up to a length bound and of all grammar derivations of bounded size, "
            "parsed by both real parsers and compared with an independent recognizer / the denotation built alongside",
            'exploration', "token strings of length <= 4 (5 in thorough) over 19 tokens; derivations to two composition steps; all 0-2 layer circuits over 7 line sets for the text round trip")
C['C03'] = ("explicit-state breadth-first exploration of all histories of editing operations on real editable Circuits, each "
            "transition replayed on a list-of-layers reference model and every reached state compared and queried",
            'model_checking', "depth 2 over about 90 operations x arguments from 6 initial circuits (depth 3 in thorough)")
C['C04'] = ("bounded-exhaustive enumeration of all circuits over five layer alphabets and of every non-mutating operation, with "
            "all arguments, on them; results compared with the algebra of layer sequences and every operand re-read after every use",
            'exploration', "circuits of length <= 3 (4 in thorough; 2/3 over the larger alphabets), all pairs for concatenation and equality, all slices, indices, repetition counts 0-3")
C['C05'] = ("explicit-state exploration of operation histories on real DataSets against a reference of plain rows; every state "
            "read back through every reading method",
            'model_checking', "histories of depth 3 from 9 initial configurations, all three collision modes, static and editable")
C['C06'] = ("explicit-state exploration of all chains of derivation and storage operations from a family of data sets, each result "
            "compared with the same chain on plain rows and every ancestor re-read",
            'model_checking', "chains of length 2 (3 in thorough) over 30 operations from 14 data sets, editable and static")
C['C07'] = ("explicit-state exploration of all histories of additions, replacements, copies and storage of a MultiDataSet against "
            "a dictionary of plain rows; all members, all aggregates and all earlier retrieved members re-read after each step",
            'model_checking', "histories of depth 3 (4 in thorough) over 12 member data sets and 3 names")
C['C28'] = ("enumeration of all call sequences over families of look-alike argument values on the real SmartCache with the timing "
            "decision chosen by the check; every answer compared with the described content of that call's own arguments",
            'model_checking', "all ordered pairs of calls in nine argument families, call sequences of length 3, both outcomes of the time comparison")
C['C29'] = ("explicit-state exploration of histories of polynomial operations on the compiled and the pure-Python representation, every "
            "reached polynomial compared with a term map and its tapes evaluated/differentiated by both tape implementations",
            'model_checking', "histories of depth 3 (4 in thorough) over about 50 operations from 8 polynomials, 1 to 100 (2000) variables")
C['C31'] = ("explicit-state exploration of histories of edge additions, removals and assignments on real QubitGraphs (and of all "
            "standard layouts and small processor specifications) against a brute-force reference graph",
            'model_checking', "all edge sets on up to 3 (directed) / 4 (undirected) nodes, all node pairs and subsets, all histories of bounded depth")
C['C20'] = ("explicit-state exploration of Clifford-gate histories on the Python stabilizer frame, the compiled and the pure-Python "
            "representations and the bare tableau, each transition mirrored on a complex state vector and every state's amplitudes, "
            "probabilities, measurements, copies and products compared",
            'model_checking', "all gate histories to depth 2-4 over 7 Clifford gates on all qubit choices of 1-3 qubits from every basis state; frames with several amplitudes; all operation kinds; model circuits of up to 2 layers")
C['C13'] = ("bounded-exhaustive exploration of layer sequences through every simulator and representation of a family of real models, each step "
            "of the path mirrored by matrices multiplied out in numpy, all outcome distributions compared",
            'model_checking', "29 models x simulators x compiled/pure-Python representations; all sequences up to 2-4 layers of alphabets with idles, parallel, repeated and nested layers; all subsets of lines")
C['C19'] = ("exhaustive enumeration of all 1- and 2-qubit Cliffords, pairs, embeddings, mod-2 matrices and all outcomes of the random draws through "
            "the real functions, compared with integer Pauli arithmetic whose convention is confirmed against unitaries",
            'exploration', "24 one-qubit Cliffords, 720 symplectic matrices x phase vectors (a third of all pairs of matrices; all in thorough), 3-qubit embeddings, numbering of all 1-2 qubit (thorough: 3 qubit) symplectic matrices")
