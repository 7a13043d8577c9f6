------------------------------- MODULE KeyOps -------------------------------
(***************************************************************************)
(* Sequential meaning of every single-key operation offered by the indexes *)
(* of this repository.  A key's state is 0 (absent) or a positive value.   *)
(* Apply(op, arg, cur) is the SET of <<next state, result>> pairs.         *)
(* Result -2 stands for "the API reports nothing".                         *)
(***************************************************************************)
EXTENDS Integers

Absent == 0
Nothing == -2

\* Rows with columns (Masstree): a present row is RowP plus one octal digit per column, digit 0 meaning "not set".
RowP == 4096
Cols == 0..3
Digit(x, c) == (x \div (8 ^ c)) % 8
OfDigits(d) == d[0] + 8 * d[1] + 64 * d[2] + 512 * d[3]
MergeCols(cur, arg) == RowP + OfDigits([c \in Cols |-> IF Digit(arg, c) # 0 THEN Digit(arg, c) ELSE IF cur = 0 THEN 0 ELSE Digit(cur, c)])
\* the columns named by the bits of mask (0: all)
Project(cur, mask) == IF mask = 0 THEN cur ELSE RowP + OfDigits([c \in Cols |-> IF (mask \div (2 ^ c)) % 2 = 1 THEN Digit(cur, c) ELSE 0])

Apply(op, arg, cur) ==
  CASE op = "get"   -> {<<cur, cur>>}                                        \* value or 0
    [] op = "has"   -> {<<cur, IF cur = 0 THEN 0 ELSE 1>>}                   \* membership test
    [] op = "ins"   -> IF cur = 0 THEN {<<arg, 1>>} ELSE {<<cur, 0>>}        \* insert if absent
    [] op = "insv"  -> IF cur = 0 THEN {<<arg, Nothing>>} ELSE {<<cur, Nothing>>}
    [] op = "insr"  -> IF cur = 0 THEN {<<arg, 0>>} ELSE {<<cur, cur>>}      \* insert if absent, returns the present value
    [] op = "ups"   -> {<<arg, IF cur = 0 THEN 1 ELSE 0>>}                   \* upsert, reports whether new
    [] op = "upsv"  -> {<<arg, Nothing>>}                                    \* upsert, reports nothing
    [] op = "upso"  -> {<<arg, cur>>}                                        \* upsert, returns the old value
    [] op = "upd"   -> IF cur = 0 THEN {<<0, 0>>} ELSE {<<arg, 1>>}          \* update if present
    [] op = "updo"  -> IF cur = 0 THEN {<<0, 0>>} ELSE {<<arg, cur>>}        \* update if present, returns the old value
    [] op = "rem"   -> {<<0, IF cur = 0 THEN 0 ELSE 1>>}                     \* remove, reports whether present
    [] op = "remo"  -> {<<0, cur>>}                                          \* remove, returns the old value
    [] op = "remv"  -> {<<0, Nothing>>}
    [] op = "remx"  -> {<<IF cur = arg THEN 0 ELSE cur, Nothing>>}           \* remove if the value matches
    [] op = "remxr" -> IF cur = arg THEN {<<0, 1>>} ELSE {<<cur, 0>>}
    [] op = "add"   -> {<<cur + arg, Nothing>>}                              \* read-modify-write: absent counts as 0
    [] op = "addo"  -> {<<cur + arg, cur>>}
    [] op = "addm"  -> {<<cur + arg, cur + 1>>, <<cur, 0>>}                  \* may fail (0) without effect
    [] op = "cput"  -> {<<MergeCols(cur, arg), IF cur = 0 THEN 1 ELSE 0>>}   \* sets the named columns of a row
    [] op = "crep"  -> {<<RowP + arg, IF cur = 0 THEN 1 ELSE 0>>}            \* replaces the whole row by its first column
    [] op = "cget"  -> {<<cur, IF cur = 0 THEN 0 ELSE Project(cur, arg)>>}   \* reads the named columns together
    [] op = "addp"  -> IF cur = 0 THEN {<<0, 0>>} ELSE {<<cur + arg, 1>>}    \* in-place change if present
=============================================================================
