---------------------------- MODULE InstanceFile ----------------------------
(***************************************************************************)
(* What an instance file says.  A file is a sequence of lines, a line a    *)
(* sequence of words (separated by blanks, tabs or colons); V gives the    *)
(* value of each word that is a number, in hundredths.                     *)
(***************************************************************************)
EXTENDS CVRP

LinesWith(file, word) == {k \in 1..Len(file) : Len(file[k]) > 0 /\ file[k][1] = word}
\* the first line that starts with the word
LineWith(file, word) == CHOOSE k \in LinesWith(file, word) : \A j \in LinesWith(file, word) : k <= j
Entry(file, word) == file[LineWith(file, word)][2]

Dimension(file, V) == V[Entry(file, "DIMENSION")] \div V[""]
Capacity(file, V) == V[Entry(file, "CAPACITY")]
Explicit(file) == Entry(file, "EDGE_WEIGHT_TYPE") = "EXPLICIT"

Coordinates(file, V) ==
  LET a == LineWith(file, "NODE_COORD_SECTION")
  IN  [i \in 1..Dimension(file, V) |-> <<V[file[a + i][2]], V[file[a + i][3]]>>]
Demands(file, V) ==
  LET a == LineWith(file, "DEMAND_SECTION")
  IN  [i \in 1..Dimension(file, V) |-> V[file[a + i][2]]]
\* row i gives the distances of node i + 1 to the nodes before it
LowerRows(file, V) ==
  LET a == LineWith(file, "EDGE_WEIGHT_SECTION")
  IN  [i \in 1..(Dimension(file, V) - 1) |-> [j \in 1..Len(file[a + i]) |-> V[file[a + i][j]]]]

FullMatrix(rows, m) ==
  [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN 0 ELSE IF i > j THEN rows[i - 1][j] ELSE rows[j - 1][i]]]

\* a file of this form is read without ambiguity
WellFormed(file, V) ==
  LET m == Dimension(file, V)
      Rows(word, width) == \A i \in 1..m : Len(file[LineWith(file, word) + i]) = width
  IN  /\ \A w \in {"DIMENSION", "CAPACITY", "EDGE_WEIGHT_TYPE", "NODE_COORD_SECTION", "DEMAND_SECTION"} :
            Cardinality(LinesWith(file, w)) = 1
      /\ m >= 2
      /\ Rows("NODE_COORD_SECTION", 3)
      /\ Rows("DEMAND_SECTION", 2)
      /\ \A i \in 1..m : /\ file[LineWith(file, "NODE_COORD_SECTION") + i][1] = ToString(i)
                         /\ file[LineWith(file, "DEMAND_SECTION") + i][1] = ToString(i)
      /\ Explicit(file) => /\ Cardinality(LinesWith(file, "EDGE_WEIGHT_SECTION")) = 1
                           /\ Entry(file, "EDGE_WEIGHT_FORMAT") = "LOWER_ROW"
                           /\ \A i \in 1..(m - 1) : Len(file[LineWith(file, "EDGE_WEIGHT_SECTION") + i]) = i

\* the instance, as far as the fleet is concerned
AsInstance(file, V) == [n |-> Dimension(file, V) - 1, q |-> Demands(file, V), cap |-> Capacity(file, V)]
=============================================================================
