--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* Byte streams, the PCM codec, and WAV files.                             *)
(* A stream is [k, ok, v, pos, st]: kind "ci"/"fi" (input from memory or a *)
(* file), "co"/"fo" (output), whether the file can be opened, its bytes,   *)
(* the position and the state.                                             *)
(* Sample codes are integers; sample values in the program are rationals.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
NewStream(k, ok, v) == [k |-> k, ok |-> ok, v |-> v, pos |-> 0, st |-> "init"]
Good(s) == s.st \in {"init", "started"}
StartStream(s) == IF ~s.ok THEN [s EXCEPT !.st = "err"]
                  ELSE [s EXCEPT !.st = "started", !.v = IF s.k = "fo" THEN <<>> ELSE @]
StopStream(s) == [s EXCEPT !.st = "stopped"]
SeekStream(s, p) == [s EXCEPT !.pos = p]
Avail(s) == Max(0, Len(s.v) - s.pos)
\* what a read of n bytes delivers, and the stream after it
Bytes(s, n) == SubSeq(s.v, s.pos + 1, s.pos + Min(n, Avail(s)))
ReadStream(s, n) == [s EXCEPT !.pos = @ + Min(n, Avail(s)), !.st = IF Avail(s) < n THEN "stopped" ELSE @]
Overwrite(v, p, b) == [i \in 1..Max(Len(v), IF Len(b) = 0 THEN Len(v) ELSE p + Len(b)) |->
                         IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(v) THEN v[i] ELSE 0]
WriteStream(s, b) == [s EXCEPT !.v = Overwrite(@, s.pos, b), !.pos = @ + Len(b)]

-----------------------------------------------------------------------------
\* little endian bytes
RECURSIVE LE(_, _)
LE(n, x) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o LE(n - 1, x \div 256)
U16(b) == b[1] + 256 * b[2]
S16(b) == IF b[2] >= 128 THEN U16(b) - 65536 ELSE U16(b)
\* 32 bit values as pairs of 16 bit halves (low, high); Small where they fit
U32(b) == <<U16(SubSeq(b, 1, 2)), U16(SubSeq(b, 3, 4))>>
Small(b) == U16(SubSeq(b, 1, 2)) + 65536 * U16(SubSeq(b, 3, 4))
Enc16(c) == LE(2, IF c < 0 THEN c + 65536 ELSE c)

\* The codec.  Codes of a format, and the value of a code as a rational <<num, den>>:
\*   i16, char : c/32767 and c/127 above zero, c/32768 and c/128 below
\*   u16, uchar: 2c/65535 - 1 and 2c/255 - 1
Codes(f) == CASE f = "i16" -> -32768..32767 [] f = "char" -> -128..127
              [] f = "u16" -> 0..65535 [] f = "uchar" -> 0..255
Top(f) == CASE f = "i16" -> 32767 [] f = "char" -> 127 [] f = "u16" -> 65535 [] f = "uchar" -> 255
Signed(f) == f \in {"i16", "char"}
Value(f, c) == IF Signed(f) THEN <<c, IF c < 0 THEN Top(f) + 1 ELSE Top(f)>> ELSE <<2 * c - Top(f), Top(f)>>
\* the code of the rational num/den in -1..1: signed codes are cut towards zero, unsigned ones rounded
Code(f, num, den) ==
    IF Signed(f) THEN IF num < 0 THEN -(((-num) * (Top(f) + 1)) \div den) ELSE (num * Top(f)) \div den
    ELSE (2 * (num + den) * Top(f) + 2 * den) \div (4 * den)

-----------------------------------------------------------------------------
\* WAV files.  Ids are byte strings.
RIFF == <<82, 73, 70, 70>>  WAVE == <<87, 65, 86, 69>>  FMT == <<102, 109, 116, 32>>  DATA == <<100, 97, 116, 97>>
Chunk(id, b) == id \o LE(4, Len(b)) \o b
Padded(id, b) == Chunk(id, b) \o Zeros(Len(b) % 2)
FmtBody(f) == LE(2, f.format) \o LE(2, f.ch) \o LE(4, f.rate) \o LE(4, f.rate * f.ch * (f.bits \div 8))
              \o LE(2, f.ch * (f.bits \div 8)) \o LE(2, f.bits)
\* the file a writer leaves: sizes are those of what was written
WavFile(f, d) == RIFF \o LE(4, 36 + Len(d)) \o WAVE \o Chunk(FMT, FmtBody(f)) \o Chunk(DATA, d)
CodeOf(bits) == IF bits = 16 THEN "i16" ELSE "uchar"
EncodeSample(bits, num, den) == IF bits = 16 THEN Enc16(Code("i16", num, den)) ELSE <<Code("uchar", num, den)>>
RECURSIVE Concat(_)
Concat(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Concat(Tail(s))
EncodeAll(bits, nums, den) ==
    LET w == bits \div 8 IN [k \in 1..(w * Len(nums)) |-> EncodeSample(bits, nums[((k - 1) \div w) + 1], den)[((k - 1) % w) + 1]]

\* Reading: chunks are found one after the other, with a byte of padding after an odd one, from position p up to the
\* declared end of the file; a chunk is [id, from, size]
At(b, p, n) == SubSeq(b, p + 1, p + n)
\* sizes of 1 GiB and more are all the same here: more than there is (a stream of unknown length claims 2^32 - 1)
Huge == 1073741824
Size(x) == IF x[4] >= 64 THEN Huge ELSE Small(x)
RECURSIVE ChunksFrom(_, _, _)
ChunksFrom(b, p, end) ==
    IF p >= end \/ p + 8 > Len(b) THEN <<>>
    ELSE LET n == Size(At(b, p + 4, 4))
         IN <<[id |-> At(b, p, 4), from |-> p + 8, size |-> n]>> \o ChunksFrom(b, p + 8 + n + (n % 2), end)
Declared(b) == 8 + Size(At(b, 4, 4))
FmtAt(b) == LET c == ChunksFrom(b, 12, Declared(b)) IN
            IF \E i \in 1..Len(c) : c[i].id = FMT THEN CHOOSE i \in 1..Len(c) : c[i].id = FMT /\ \A j \in 1..(i - 1) : c[j].id # FMT
            ELSE 0
Format(b) == LET c == ChunksFrom(b, 12, Declared(b))[CHOOSE i \in 1..Len(ChunksFrom(b, 12, Declared(b))) :
                          /\ ChunksFrom(b, 12, Declared(b))[i].id = FMT
                          /\ \A j \in 1..(i - 1) : ChunksFrom(b, 12, Declared(b))[j].id # FMT]
             IN [format |-> U16(At(b, c.from, 2)), ch |-> U16(At(b, c.from + 2, 2)), rate |-> Small(At(b, c.from + 4, 4)),
                 bits |-> U16(At(b, c.from + 14, 2))]
\* the samples of one data chunk that are really there
ChunkSamples(b, c, bits) ==
    LET w == bits \div 8
        n == Min(c.size, Max(0, Len(b) - c.from)) \div w
    IN [i \in 1..n |-> IF bits = 16 THEN S16(At(b, c.from + 2 * (i - 1), 2)) ELSE b[c.from + i]]
AfterFmt(b) == IF FmtAt(b) = 0 THEN <<>> ELSE LET c == ChunksFrom(b, 12, Declared(b)) IN SubSeq(c, FmtAt(b) + 1, Len(c))
Samples(b) == LET c == AfterFmt(b) bits == Format(b).bits
              IN Concat([i \in 1..Len(c) |-> IF c[i].id = DATA THEN ChunkSamples(b, c[i], bits) ELSE <<>>])
\* nothing but silence follows the last sample
Trailing(b) == LET c == AfterFmt(b) IN Len(c) > 0 /\ ~(c[Len(c)].id = DATA /\ c[Len(c)].size > 0)
Short(b) == Len(b) < Declared(b)

Silence == 99999
\* the next n samples of a file of which `at` have been delivered
Deliver(smp, at, n) == [i \in 1..n |-> IF at + i <= Len(smp) THEN smp[at + i] ELSE Silence]
=============================================================================
