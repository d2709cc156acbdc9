-------------------------------- MODULE MCIo --------------------------------
(* A byte stream under every sequence of seeks, reads and writes, with the   *)
(* history of writes kept apart; a file written by a writer or put together  *)
(* from chunks, read by a reader with buffers of any size.                   *)
EXTENDS Io, Json
CONSTANTS MaxSteps, MaxLen, Gen
VARIABLES s, map, top, f, at, got, steps, hist
vars == <<s, map, top, f, at, got, steps, hist>>
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1

Fmts == {[format |-> 1, ch |-> c, rate |-> 8000, bits |-> b] : c \in {1, 2}, b \in {8, 16}}
Byte(i) == (37 * i + 11) % 251
Body(n) == [i \in 1..n |-> Byte(i + n)]
JUNK == <<74, 85, 78, 75>>
\* files: an optional chunk before the format, an extended format, data in up to two parts, an optional chunk between and after
Files == { LET fr == fm.ch * (fm.bits \div 8)
               body == FmtBody(fm) \o Zeros(x)
               mid == IF j % 2 = 1 THEN Padded(JUNK, Body(3)) ELSE <<>>
               pre == IF j \div 4 = 1 THEN Padded(JUNK, Body(2)) ELSE <<>>
               post == IF (j \div 2) % 2 = 1 THEN Padded(JUNK, Body(5)) ELSE <<>>
               rest == WAVE \o pre \o Padded(FMT, body) \o Padded(DATA, Body(fr * n)) \o mid \o Padded(DATA, Body(fr * m)) \o post
           IN [b |-> RIFF \o LE(4, Len(rest)) \o rest, fm |-> fm, n |-> n, m |-> m, x |-> x, j |-> j]
         : fm \in Fmts, x \in {0, 2}, n \in 0..2, m \in 0..3, j \in 0..7 }

Init == /\ s = StartStream(NewStream("co", TRUE, <<>>)) /\ map = <<>> /\ top = 0
        /\ f \in (IF Gen THEN {[b |-> <<>>]} ELSE Files) /\ at = 0 /\ got = <<>> /\ steps = 0 /\ hist = <<>>
Write == /\ Tick /\ \E n \in 0..2 :
              LET b == [i \in 1..n |-> (10 * (steps + 1) + i) % 160]
              IN /\ s' = WriteStream(s, b)
                 /\ map' = Append(map, [p |-> s.pos, b |-> b])
                 /\ top' = IF n = 0 THEN top ELSE Max(top, s.pos + n)
                 /\ H([op |-> "write", b |-> b])
         /\ UNCHANGED <<f, at, got>>
Seek == /\ Tick /\ \E p \in 0..MaxLen : s' = SeekStream(s, p) /\ H([op |-> "seek", p |-> p])
        /\ UNCHANGED <<map, top, f, at, got>>
Read == /\ Tick /\ Gen = FALSE /\ \E n \in 1..3 :
             LET k == n * f.fm.ch IN
             /\ got' = got \o Deliver(Samples(f.b), at, k)
             /\ at' = Min(Len(Samples(f.b)), at + k)
        /\ UNCHANGED <<s, map, top, f, hist>>
\* the two halves are independent: streams are explored on one of the files only
Streams == IF Gen THEN TRUE ELSE (f.n = 0 /\ f.m = 0 /\ f.x = 0 /\ f.j = 0 /\ f.fm.ch = 1 /\ f.fm.bits = 8)
Next == (Streams /\ (Write \/ Seek)) \/ Read
Spec == Init /\ [][Next]_vars

\* a stream holds, at every position, what was written there last
RECURSIVE Last(_, _)
Last(i, p) == IF i = 0 THEN 0
              ELSE IF p >= map[i].p /\ p < map[i].p + Len(map[i].b) THEN map[i].b[p - map[i].p + 1] ELSE Last(i - 1, p)
StreamIsMemory == s.v = [i \in 1..top |-> Last(Len(map), i - 1)]
ReadsBack == \A p \in 0..top, n \in 0..3 :
               LET r == SeekStream([s EXCEPT !.k = "ci"], p)
               IN /\ Bytes(r, n) = SubSeq(s.v, p + 1, Min(p + n, top))
                  /\ (ReadStream(r, n).st = "stopped") = (p + n > top)
\* all the frames of a file, however they are split over chunks, then silence
NSamples == (f.n + f.m) * f.fm.ch
Complete == Gen \/ /\ Len(Samples(f.b)) = NSamples
                   /\ Format(f.b) = f.fm
                   /\ at = Min(Len(got), NSamples)
                   /\ SubSeq(got, 1, at) = SubSeq(Samples(f.b), 1, at)
                   /\ \A i \in (at + 1)..Len(got) : got[i] = Silence
\* what a writer leaves is read back as what was given to it
Nums == <<-256, -255, -128, -1, 0, 1, 127, 255, 256, 3>>
RoundTrip == Gen \/ LET w == WavFile(f.fm, EncodeAll(f.fm.bits, SubSeq(Nums, 1, NSamples), 256))
                    IN /\ Samples(w) = [i \in 1..NSamples |-> Code(CodeOf(f.fm.bits), Nums[i], 256)]
                       /\ Format(w) = f.fm /\ ~Trailing(w) = (NSamples > 0) /\ Declared(w) = Len(w)
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
View == <<s, map, f, at, got>>
=============================================================================
