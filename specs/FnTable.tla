------------------------------ MODULE FnTable ------------------------------
(* Elementary functions at a few points, times 10^4, rounded to the nearest. *)
EXTENDS Integers, Sequences
Rows == {
 <<"sin", "-2", -9093>>,
 <<"sin", "-1", -8415>>,
 <<"sin", "-1/2", -4794>>,
 <<"sin", "0", 0>>,
 <<"sin", "1/2", 4794>>,
 <<"sin", "1", 8415>>,
 <<"sin", "2", 9093>>,
 <<"sin", "3", 1411>>,
 <<"cos", "-2", -4161>>,
 <<"cos", "-1", 5403>>,
 <<"cos", "-1/2", 8776>>,
 <<"cos", "0", 10000>>,
 <<"cos", "1/2", 8776>>,
 <<"cos", "1", 5403>>,
 <<"cos", "2", -4161>>,
 <<"cos", "3", -9900>>,
 <<"tan", "-2", 21850>>,
 <<"tan", "-1", -15574>>,
 <<"tan", "-1/2", -5463>>,
 <<"tan", "0", 0>>,
 <<"tan", "1/2", 5463>>,
 <<"tan", "1", 15574>>,
 <<"tan", "2", -21850>>,
 <<"tan", "3", -1425>>,
 <<"exp", "-2", 1353>>,
 <<"exp", "-1", 3679>>,
 <<"exp", "-1/2", 6065>>,
 <<"exp", "0", 10000>>,
 <<"exp", "1/2", 16487>>,
 <<"exp", "1", 27183>>,
 <<"exp", "2", 73891>>,
 <<"exp", "3", 200855>>,
 <<"tanh", "-2", -9640>>,
 <<"tanh", "-1", -7616>>,
 <<"tanh", "-1/2", -4621>>,
 <<"tanh", "0", 0>>,
 <<"tanh", "1/2", 4621>>,
 <<"tanh", "1", 7616>>,
 <<"tanh", "2", 9640>>,
 <<"tanh", "3", 9951>>,
 <<"log", "1/2", -6931>>,
 <<"log", "1", 0>>,
 <<"log", "2", 6931>>,
 <<"log", "3", 10986>>,
 <<"sqrt", "0", 0>>,
 <<"sqrt", "1/2", 7071>>,
 <<"sqrt", "1", 10000>>,
 <<"sqrt", "2", 14142>>,
 <<"sqrt", "3", 17321>>,
 <<"logabs", "-2", 6931>>,
 <<"logabs", "-1", 0>>,
 <<"logabs", "-1/2", -6931>>,
 <<"logabs", "1/2", -6931>>,
 <<"logabs", "1", 0>>,
 <<"logabs", "2", 6931>>,
 <<"logabs", "3", 10986>>,
 <<"expneg", "-2", 73891>>,
 <<"expneg", "-1", 27183>>,
 <<"expneg", "-1/2", 16487>>,
 <<"expneg", "0", 10000>>,
 <<"expneg", "1/2", 6065>>,
 <<"expneg", "1", 3679>>,
 <<"expneg", "2", 1353>>,
 <<"expneg", "3", 498>>,
 <<"expneg", "150", 0>>,
 <<"sigmoid", "-2", 1192>>,
 <<"sigmoid", "-1", 2689>>,
 <<"sigmoid", "-1/2", 3775>>,
 <<"sigmoid", "0", 5000>>,
 <<"sigmoid", "1/2", 6225>>,
 <<"sigmoid", "1", 7311>>,
 <<"sigmoid", "2", 8808>>,
 <<"sigmoid", "3", 9526>>,
 <<"protected_exp", "-2", 1353>>,
 <<"protected_exp", "-1", 3679>>,
 <<"protected_exp", "-1/2", 6065>>,
 <<"protected_exp", "0", 10000>>,
 <<"protected_exp", "1/2", 16487>>,
 <<"protected_exp", "1", 27183>>,
 <<"protected_exp", "2", 73891>>,
 <<"protected_exp", "3", 200855>>,
 <<"protected_exp", "150", 0>>,
 <<"protected_log", "-2", 6931>>,
 <<"protected_log", "-1", 0>>,
 <<"protected_log", "-1/2", -6931>>,
 <<"protected_log", "0", 0>>,
 <<"protected_log", "1/2", -6931>>,
 <<"protected_log", "1", 0>>,
 <<"protected_log", "2", 6931>>,
 <<"protected_log", "3", 10986>>,
 <<"protected_log", "150", 50106>>,
 <<"protected_logabs", "-2", 6931>>,
 <<"protected_logabs", "-1", 0>>,
 <<"protected_logabs", "-1/2", -6931>>,
 <<"protected_logabs", "0", 0>>,
 <<"protected_logabs", "1/2", -6931>>,
 <<"protected_logabs", "1", 0>>,
 <<"protected_logabs", "2", 6931>>,
 <<"protected_logabs", "3", 10986>>,
 <<"protected_logabs", "150", 50106>>,
 <<"protected_sqrt", "-2", 14142>>,
 <<"protected_sqrt", "-1", 10000>>,
 <<"protected_sqrt", "-1/2", 7071>>,
 <<"protected_sqrt", "0", 0>>,
 <<"protected_sqrt", "1/2", 7071>>,
 <<"protected_sqrt", "1", 10000>>,
 <<"protected_sqrt", "2", 14142>>,
 <<"protected_sqrt", "3", 17321>>,
 <<"protected_sqrt", "150", 122474>>,
 <<"protected_expneg", "-2", 73891>>,
 <<"protected_expneg", "-1", 27183>>,
 <<"protected_expneg", "-1/2", 16487>>,
 <<"protected_expneg", "0", 10000>>,
 <<"protected_expneg", "1/2", 6065>>,
 <<"protected_expneg", "1", 3679>>,
 <<"protected_expneg", "2", 1353>>,
 <<"protected_expneg", "3", 498>>,
 <<"protected_expneg", "150", 0>>,
 <<"protected_sigmoid", "-2", 1192>>,
 <<"protected_sigmoid", "-1", 2689>>,
 <<"protected_sigmoid", "-1/2", 3775>>,
 <<"protected_sigmoid", "0", 5000>>,
 <<"protected_sigmoid", "1/2", 6225>>,
 <<"protected_sigmoid", "1", 7311>>,
 <<"protected_sigmoid", "2", 8808>>,
 <<"protected_sigmoid", "3", 9526>>,
 <<"protected_sigmoid", "150", 10000>>,
 <<"harmonic", "1", 10000>>,
 <<"harmonic", "2", 15000>>,
 <<"harmonic", "3", 18333>>}
Names == {r[1] : r \in Rows}
Points(n) == {r[2] : r \in {q \in Rows : q[1] = n}}
Fn(n, x) == (CHOOSE r \in Rows : r[1] = n /\ r[2] = x)[3]
=============================================================================
