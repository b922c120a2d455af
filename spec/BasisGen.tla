------------------------------ MODULE BasisGen ------------------------------
(* Universe of bases, transforms and random dictionaries.  The laws check that *)
(* the documented matrices really are orthonormal.                             *)
EXTENDS LopSem, Wavelet, Json
CONSTANTS Deep, Emit
WLev == {<<"haar", 2, 1>>, <<"haar", 4, 1>>, <<"haar", 4, 2>>, <<"haar", 3, 1>>, <<"haar", 5, 2>>, <<"haar", 8, 3>>, <<"haar", 7, 2>>, <<"haar", 16, 4>>,
         <<"db2", 8, 1>>, <<"db2", 6, 1>>, <<"db2", 16, 2>>, <<"db2", 12, 2>>, <<"db3", 12, 1>>, <<"db3", 16, 1>>,
         <<"coif1", 16, 1>>, <<"sym4", 16, 1>>, <<"db4", 16, 1>>}
         \cup (IF Deep THEN {<<"haar", 32, 5>>, <<"db2", 32, 3>>, <<"db3", 32, 2>>, <<"coif1", 32, 2>>, <<"sym4", 32, 2>>, <<"db4", 32, 2>>, <<"haar", 6, 2>>, <<"haar", 12, 3>>, <<"db2", 10, 1>>} ELSE {})
W2 == {<<"haar", <<4, 4>>, 2, <<0, 1>>>>, <<"haar", <<4, 8>>, 2, <<0, 1>>>>, <<"haar", <<3, 4>>, 1, <<0, 1>>>>, <<"db2", <<8, 8>>, 1, <<0, 1>>>>,
       <<"haar", <<2, 4, 4>>, 1, <<1, 2>>>>, <<"haar", <<4, 2, 3>>, 1, <<0, 2>>>>, <<"haar", <<4, 4>>, 1, <<1, 0>>>>}
Ns == {1, 2, 3, 4, 5, 6, 8} \cup (IF Deep THEN {10, 12, 15, 16} ELSE {})
NsC == {1, 2, 3, 4, 5, 6, 8} \cup (IF Deep THEN {10, 12, 15} ELSE {})
Descs == UNION {
  {[k |-> "fourier_basis", n |-> n, axis |-> 0, cin |-> TRUE] : n \in Ns},
  {[k |-> "dirac_fourier_basis", n |-> n, axis |-> 0, cin |-> TRUE] : n \in Ns},
  {[k |-> "cosine_basis", n |-> n, axis |-> 0, cin |-> FALSE] : n \in NsC},
  {[k |-> "walsh_hadamard_basis", n |-> n, axis |-> 0, cin |-> TRUE] : n \in {2, 4, 8} \cup (IF Deep THEN {16} ELSE {})},
  {[k |-> "dwt", n |-> t[2], wavelet |-> t[1], level |-> t[3], basis |-> b, axis |-> IF b THEN 1 ELSE 0, cin |-> FALSE] : t \in WLev, b \in BOOLEAN},
  {[k |-> "dwt2D", n |-> 0, shape |-> t[2], wavelet |-> t[1], level |-> t[3], axes |-> t[4], basis |-> b, axis |-> 0, cin |-> FALSE] : t \in W2, b \in BOOLEAN},
  {[k |-> "random", name |-> nm, key |-> s, m |-> m, n |-> n, d |-> 2, dense |-> FALSE, axis |-> a, cin |-> FALSE]
     : nm \in {"gaussian_dict", "rademacher_dict", "random_onb_dict", "random_orthonormal_rows_dict", "sparse_binary_dict"}, s \in 1..2, m \in {3}, n \in {3, 5}, a \in {0, 1}},
  {[k |-> "random", name |-> "sparse_binary_dict", key |-> s, m |-> 4, n |-> 6, d |-> 3, dense |-> TRUE, axis |-> 0, cin |-> FALSE] : s \in 1..2},
  {[k |-> "random", name |-> "binary_dict_alg", key |-> s, m |-> 3, n |-> n, d |-> 0, dense |-> FALSE, axis |-> 0, cin |-> FALSE] : s \in 1..2, n \in {3, 4}}
 }
(* matrices of the dictionary package *)
Mats == UNION {
  {[k |-> "mat", name |-> nm, n |-> n] : nm \in {"fourier_basis"}, n \in Ns},
  {[k |-> "mat", name |-> nm, n |-> n] : nm \in {"cosine_basis", "dirac_cosine_basis"}, n \in NsC},
  {[k |-> "mat", name |-> nm, n |-> n] : nm \in {"hadamard_basis", "hadamard", "dirac_hadamard_basis", "dirac_hadamard_cosine_basis"}, n \in {1, 2, 4, 8}},
  {[k |-> "mat", name |-> "wavelet_basis", n |-> t[2], wavelet |-> t[1], level |-> t[3]] : t \in {u \in WLev : NextPow2(u[2]) = u[2]}}
 }
VARIABLES d, probed
Init == /\ d \in Descs \cup Mats /\ probed = 0
        /\ Emit => PrintT(<<"CASE", ToJson(d)>>)
Next == probed = 0 /\ probed' = 1 /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, probed>>
Gram(Re, Im, a, b) == SumS([i \in 1..Len(Re) |-> FMul(Re[i][a], Re[i][b], SC) + FMul(Im[i][a], Im[i][b], SC)])
Orthonormal ==
  /\ d.k \in {"fourier_basis", "cosine_basis", "walsh_hadamard_basis"} =>
       LET Re == RowsRe(d)  Im == RowsIm(d) IN
       \A a, b \in 1..d.n : Abs(Gram(Re, Im, a, b) - (IF a = b THEN SC ELSE 0)) <= 4 * d.n + 6
  /\ d.k = "dwt" => LET Tr == TLCEval([j \in 1..d.n |-> DwtCol(d.n, d.wavelet, d.level, j)]) IN
       \A a, b \in 1..d.n : Abs(FDot(Tr[a], Tr[b], SC) - (IF a = b THEN SC ELSE 0)) <= 6 * Len(Tr[1]) + 10
=============================================================================
