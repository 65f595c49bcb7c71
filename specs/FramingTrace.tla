------------------------------- MODULE FramingTrace -------------------------------
EXTENDS TraceLib, Framing
VARIABLES l, layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds, ndr
vars == <<l, layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds, ndr>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
InLayers(x) == \E i \in 1..Len(layers) : layers[i] = x
LayerIdx(S) == {i \in 1..Len(layers) : layers[i] \in S}
Rng(s) == {s[i] : i \in 1..Len(s)}

Init == l = 1 /\ layers = <<>> /\ mtu = 0 /\ segmtu = 0 /\ loop = FALSE /\ sent = <<>> /\ nwire = 0 /\ nrecv = 0 /\ acc = <<>> /\ racc = <<>>
        /\ exp = <<>> /\ nds = <<>> /\ ndr = <<>>
New == /\ Is("init") /\ exp = <<>> /\ layers' = E.layers /\ mtu' = E.mtu /\ segmtu' = E.segmtu /\ loop' = E.loop
       /\ sent' = <<>> /\ nwire' = 0 /\ nrecv' = 0 /\ acc' = <<>> /\ racc' = <<>> /\ exp' = <<>> /\ nds' = <<>> /\ ndr' = <<>>
Send == Is("send") /\ sent' = Append(sent, E.b) /\ UNCHANGED <<layers, mtu, segmtu, loop, nwire, nrecv, acc, racc, exp, nds, ndr>>

\* A frame at the bottom of the encoding stack: within the MTU, without reserved bytes, and what
\* the peer (as specified) gets from it is what has been sent
Frame ==
    /\ Is("frame")
    /\ mtu > 0 => Len(E.b) <= mtu
    /\ LET top == Len(layers)
           r == StackDec(layers, E.b, acc)
           body == IF top > 0 /\ InLayers("term") /\ Len(E.b) >= 4 THEN SubSeq(E.b, 3, Len(E.b) - 2) ELSE E.b
       IN /\ r.ok
          \* reserved bytes, if the layers below the escaping do not add any
          /\ (LayerIdx({"asc", "ASC"}) # {} /\ LayerIdx({"crc8", "crc16"}) = {}) => Rng(body) \cap AscReserved = {}
          /\ (LayerIdx({"ASC"}) # {} /\ LayerIdx({"crc8", "crc16"}) = {}) => \A i \in 1..Len(body) : body[i] >= 32
          /\ \A i \in LayerIdx({"asc", "ASC"}) : (\A j \in i..top : layers[j] \notin {"crc8", "crc16"}) => Rng(body) \cap AscReserved = {}
          /\ (layers # <<>> /\ layers[top] = "seg" /\ segmtu > 1) => Len(E.b) <= segmtu
          /\ IF r.up THEN nwire < Len(sent) /\ r.m = sent[nwire + 1] /\ nwire' = nwire + 1
             ELSE UNCHANGED nwire
          /\ acc' = r.acc
    /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nrecv, racc, exp, nds, ndr>>
Recv ==
    /\ Is("recv")
    /\ IF exp # <<>> THEN E.b = Head(exp) /\ exp' = Tail(exp) /\ UNCHANGED nrecv
       ELSE nrecv < Len(sent) /\ E.b = sent[nrecv + 1] /\ nrecv' = nrecv + 1 /\ UNCHANGED exp
    /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, acc, racc, nds, ndr>>
End == /\ Is("end") /\ nrecv = Len(sent) /\ (~loop => nwire = Len(sent)) /\ acc = <<>>
       /\ SelectSeq(ndr, LAMBDA c : c \notin {27, 13}) = SelectSeq(nds, LAMBDA c : c \notin {27, 13})
       /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds, ndr>>
\* A frame made by someone else (or a damaged frame); delivered iff it is valid
\* (the decoding layers below a segmentation layer only; others are bare)
RECURSIVE DecAll(_, _, _)
DecAll(fs, a, out) == IF fs = <<>> THEN [out |-> out, acc |-> a]
                      ELSE LET r == StackDec(layers, Head(fs), a) IN DecAll(Tail(fs), r.acc, IF r.up THEN Append(out, r.m) ELSE out)
Raw ==
    /\ Is("raw") /\ exp = <<>>
    /\ LET fs == IF InLayers("term") THEN LET t == TermStream(E.b) IN [i \in 1..Len(t) |-> TermEnc(t[i])] ELSE <<E.b>>
           d == DecAll(fs, racc, <<>>)
       IN exp' = d.out /\ racc' = d.acc
    /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, nds, ndr>>
RawEnd == Is("rawend") /\ exp = <<>> /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds, ndr>>
NdSend == Is("ndsend") /\ nds' = nds \o E.b /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, ndr>>
Nd == Is("nd") /\ ndr' = ndr \o E.b /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds>>
Reset == Is("reset") /\ exp = <<>> /\ acc' = <<>> /\ racc' = <<>> /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, exp, nds, ndr>>
\* Exhaustive fault injection (bursts): nothing is delivered, and the intact frame still is
Burst == /\ Is("burst") /\ E.n > 0 /\ E.delivered = 0 /\ E.intact = E.frames /\ E.same
         /\ UNCHANGED <<layers, mtu, segmtu, loop, sent, nwire, nrecv, acc, racc, exp, nds, ndr>>
Next == New \/ Send \/ Frame \/ Recv \/ End \/ Raw \/ RawEnd \/ NdSend \/ Nd \/ Reset \/ Burst
Spec == Init /\ [][Next]_vars
================================================================================
