------------------------------ MODULE MCCodec ------------------------------
(* Every code of every format: the value of a code is between -1 and 1,      *)
(* grows with the code, and has that code again; and so do the values half   *)
(* way to the next code where the format rounds.                             *)
EXTENDS Io
VARIABLES fmt, c
Formats == {"i16", "char", "u16", "uchar"}
Init == fmt \in Formats /\ c = (IF Signed(fmt) THEN -Top(fmt) - 1 ELSE 0)
Next == c < Top(fmt) /\ c' = c + 1 /\ fmt' = fmt
Spec == Init /\ [][Next]_<<fmt, c>>
\* code of num/den where num * Top may leave 32 bits: split as quotient and remainder
Back == LET v == Value(fmt, c) IN
        IF Signed(fmt) THEN v[1] = c /\ v[2] = (IF c < 0 THEN Top(fmt) + 1 ELSE Top(fmt))
        ELSE (v[1] + v[2]) = 2 * c /\ v[2] = Top(fmt)
InUnit == LET v == Value(fmt, c) IN -v[2] <= v[1] /\ v[1] <= v[2]
Ends == LET v == Value(fmt, c) IN (c = Top(fmt)) = (v[1] = v[2]) /\ ((c = IF Signed(fmt) THEN -Top(fmt) - 1 ELSE 0) = (v[1] = -v[2]))
Dyadic == \A k \in {1, 2, 64, 256} : \A n \in {-k, -k + 1, -1, 0, 1, k \div 2, k - 1, k} :
            (n >= -k /\ n <= k) => Code(fmt, n, k) \in Codes(fmt)
Bytes16 == fmt = "i16" => S16(Enc16(c)) = c
=============================================================================
