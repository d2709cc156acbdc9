------------------------------ MODULE IoTrace ------------------------------
(* Byte streams, the codec, and WAV writers, readers and sources against Io. *)
EXTENDS TraceKit, Io
VARIABLE s
NoFile == [b |-> <<>>, smp |-> <<>>, at |-> 0, buf |-> 1, ch |-> 0, tail |-> FALSE, bits |-> 16, rate |-> 0]
Init == KitInit /\ s = [m |-> [i \in 1..3 |-> NewStream("ci", TRUE, <<>>)],
                        w |-> [format |-> 1, ch |-> 1, rate |-> 44100, bits |-> 0], d |-> <<>>, base |-> <<>>, size |-> 0, last |-> <<>>,
                        r |-> NoFile]
Cur == s.m[E.i]
Out(k) == k \in {"co", "fo"}
\* the state is observed after every operation; the bytes of an output array always, of a file once it is closed
Seen(m) == E.st = m.st /\ (m.k = "co" => E.v = m.v) = TRUE
TMk == Is("mk") /\ LET m == NewStream(E.k, E.ok = 1, E.v) IN s' = [s EXCEPT !.m[E.i] = m] /\ E.st = "init"
Step(m) == s' = [s EXCEPT !.m[E.i] = m] /\ Seen(m)
TStart == Is("start") /\ Step(StartStream(Cur))
TStop == Is("stop") /\ Step(StopStream(Cur)) /\ (Cur.k = "fo" /\ E.ok = 1 => E.v = Cur.v) = TRUE
TSeek == Is("seek") /\ Step(SeekStream(Cur, E.p))
\* what lies beyond the end leaves the caller's array alone (165 is what it held)
TRead == /\ Is("read") /\ Step(ReadStream(Cur, E.n))
         /\ LET g == Bytes(Cur, E.n) IN E.b = g \o [i \in 1..(E.n - Len(g)) |-> 165]
TWrite == Is("write") /\ Step(WriteStream(Cur, E.b))
\* much more than a device without space takes
TFill == Is("fill") /\ s' = [s EXCEPT !.m[E.i] = StopStream(Cur)] /\ E.st = "stopped"
-----------------------------------------------------------------------------
\* the values of codes lo..hi in units of a thousandth of a code, and the codes of these values
TCodec == /\ Is("codec") /\ UNCHANGED s
          /\ E.mf = [i \in 1..E.n |-> LET c == E.lo + i - 1 IN IF Signed(E.f) THEN 1000 * c ELSE 1000 * (2 * c - Top(E.f))]
          /\ E.back = [i \in 1..E.n |-> E.lo + i - 1]
\* codes of num/den; squished in the order of the buffer
\* a cast changes nothing
Coded(f, x, den) == IF f \in {"float", "null"} THEN x ELSE Code(f, x, den)
TEnc == Is("enc") /\ UNCHANGED s /\ E.v = [i \in 1..Len(E.x) |-> Coded(E.f, E.x[i], E.den)]
SeqOrder(x, ch) == [i \in 1..Len(x) |-> LET cap == Len(x) \div ch IN x[((i - 1) \div cap) + ch * ((i - 1) % cap) + 1]]
TSquish == /\ Is("squish") /\ UNCHANGED s
           /\ LET o == IF E.how = "inter" THEN E.x ELSE IF E.how = "seq" THEN SeqOrder(E.x, E.ch) ELSE <<>>
              IN E.v = IF E.how = "null" THEN [i \in 1..Len(E.x) |-> 77] ELSE [i \in 1..Len(o) |-> Coded(E.f, o[i], E.den)]
TBytes == /\ Is("bytes") /\ UNCHANGED s
          /\ E.i16 = S16(E.b) /\ E.u32 = U32(E.b) /\ E.s32lo = U32(E.b)[1]
          /\ E.s32hi = S16(SubSeq(E.b, 3, 4))
          /\ E.e16 = SubSeq(E.b, 1, 2) /\ E.es32 = E.b /\ E.eu32 = E.b
-----------------------------------------------------------------------------
\* writers
WInfo(w, size) == /\ E.f = w.format /\ E.ch = w.ch /\ E.rate = w.rate /\ E.bits = w.bits /\ E.bytes = w.bits \div 8
                  /\ E.align = w.ch * (w.bits \div 8) /\ E.brate = w.ch * w.rate * (w.bits \div 8) /\ E.size = size
TWNew == Is("wnew") /\ s' = [s EXCEPT !.w = [format |-> 1, ch |-> 1, rate |-> 44100, bits |-> 0], !.d = <<>>, !.base = <<>>, !.size = 0]
TWSet == /\ Is("wset")
         /\ LET w == CASE E.what = "ch" -> [s.w EXCEPT !.ch = E.x] [] E.what = "rate" -> [s.w EXCEPT !.rate = E.x]
                       [] E.what = "bits" -> [s.w EXCEPT !.bits = E.x] [] E.what = "bytes" -> [s.w EXCEPT !.bits = 8 * E.x]
                       [] E.what = "format" -> [s.w EXCEPT !.format = E.x]
            IN s' = [s EXCEPT !.w = w] /\ WInfo(w, s.size)
\* the writer is given another stream, or the one it has from its start: what a memory stream holds is written over
TWStream == Is("wstream") /\ s' = [s EXCEPT !.base = IF E.keep = 1 THEN s.last ELSE <<>>]
\* every start is the start of a file
TWStart == Is("wstart") /\ s' = [s EXCEPT !.d = <<>>, !.size = 44] /\ E.st = "started" /\ WInfo(s.w, 44)
TWWrite == /\ Is("wwrite")
           /\ LET d == s.d \o EncodeAll(s.w.bits, E.x, E.den)
              IN s' = [s EXCEPT !.d = d, !.size = 44 + Len(d)] /\ WInfo(s.w, 44 + Len(d))
TWStop == /\ Is("wstop") /\ LET b == Overwrite(s.base, 0, WavFile(s.w, s.d)) IN E.v = b /\ s' = [s EXCEPT !.last = b]
          /\ E.st = "stopped"
\* m * 2^16 bytes of samples: the header and the length of what was written
TWGiant == /\ Is("wgiant") /\ UNCHANGED s /\ E.hi = E.m /\ E.lo = 44
           /\ E.v = RIFF \o <<36, 0>> \o LE(2, E.m) \o WAVE
                     \o Chunk(FMT, FmtBody([format |-> 1, ch |-> E.ch, rate |-> 8000, bits |-> E.bits]))
                     \o DATA \o <<0, 0>> \o LE(2, E.m)
\* single chunks: encoded, and decoded again
TChunk == /\ Is("chunk") /\ UNCHANGED s
          /\ CASE E.k = "head" -> E.v = E.id \o LE(4, E.x[1]) /\ E.id2 = E.id /\ E.y = E.x
               [] E.k = "riff" -> E.v = RIFF \o LE(4, E.x[1]) \o WAVE /\ E.id2 = RIFF /\ E.id3 = WAVE /\ E.y = E.x
               [] E.k = "fmt" -> /\ E.v = FMT \o LE(4, 16) \o LE(2, E.x[1]) \o LE(2, E.x[2]) \o LE(4, E.x[3]) \o LE(4, E.x[4])
                                            \o LE(2, E.x[5]) \o LE(2, E.x[6])
                                 /\ E.y = E.x
               [] E.k = "other" -> E.v = Chunk(E.id, E.x) /\ E.y = E.x /\ E.size = 8 + Len(E.x)
-----------------------------------------------------------------------------
\* readers
Opened(b, buf) == IF FmtAt(b) = 0 THEN [NoFile EXCEPT !.buf = buf]
                  ELSE LET f == Format(b) IN
                       [b |-> b, smp |-> Samples(b), at |-> 0, buf |-> buf, ch |-> f.ch, tail |-> Trailing(b), bits |-> f.bits, rate |-> f.rate]
RInfo(b) == FmtAt(b) # 0 => LET f == Format(b) w == f.bits \div 8
            IN /\ E.f = f.format /\ E.ch = f.ch /\ E.rate = f.rate /\ E.bits = f.bits /\ E.bytes = w
               /\ E.align = f.ch * w /\ E.brate = f.rate * f.ch * w /\ (Declared(b) < Huge => E.size = Declared(b))
TFile == Is("file") /\ s' = [s EXCEPT !.last = E.v]
TROpen == /\ Is("ropen")
          /\ IF E.missing = 1 THEN E.done = 1 /\ s' = [s EXCEPT !.r = NoFile]
             ELSE LET r == Opened(s.last, E.buf)
                  IN /\ s' = [s EXCEPT !.r = r]
                     /\ RInfo(s.last) = TRUE
                     /\ (E.done = 1 => Len(r.smp) = 0) = TRUE
                     /\ (FmtAt(s.last) = 0 => E.done = 1) = TRUE
TRBuf == Is("rbuf") /\ s' = [s EXCEPT !.r.buf = E.n]
Unit(bits) == IF bits = 16 THEN 1000 ELSE 2000
\* nothing to be found (no such file, or one that ends before its format): silence
TRNone == /\ Is("rget") /\ s.r.ch = 0 /\ E.done = 1 /\ \A i \in 1..Len(E.v) : E.v[i] \in {0, 255000}
          /\ UNCHANGED s
TRGet == /\ Is("rget") /\ s.r.ch > 0
         /\ LET r == s.r n == r.buf * r.ch out == Deliver(r.smp, r.at, n) at == Min(Len(r.smp), r.at + n)
                all == at = Len(r.smp)
            IN /\ s' = [s EXCEPT !.r.at = at]
               /\ E.ch = r.ch /\ E.cap = r.buf /\ E.rate = r.rate
               /\ E.v = [i \in 1..n |-> IF out[i] = Silence THEN (IF r.bits = 16 THEN 0 ELSE 255000)
                                        ELSE Unit(r.bits) * out[i]]
               /\ (E.done = 1 => all) = TRUE
               /\ ((all /\ ~r.tail /\ ~Short(r.b)) => E.done = 1) = TRUE
               /\ (r.at = Len(r.smp) => E.done = 1) = TRUE
               /\ (E.done = 1 => E.st = "stopped") = TRUE
\* sources: the same, in a chain
TSOpen == More /\ E.op = "sopen" /\ LET r == Opened(s.last, E.buf)
          IN /\ Is("sopen") /\ s' = [s EXCEPT !.r = r]
             /\ (r.ch > 0 => E.ch = r.ch /\ E.rate = r.rate) = TRUE
Next == TMk \/ TStart \/ TStop \/ TSeek \/ TRead \/ TWrite \/ TFill \/ TCodec \/ TEnc \/ TSquish \/ TBytes
        \/ TWNew \/ TWSet \/ TWStream \/ TWStart \/ TWWrite \/ TWStop \/ TWGiant \/ TChunk \/ TFile \/ TROpen \/ TRBuf \/ TRNone \/ TRGet \/ TSOpen
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
