----------------------------- MODULE TraceCodec -----------------------------
(* Validates recorded encodings against Codec. *)
EXTENDS Codec, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == IsEvent("init")
TElems == /\ IsEvent("elems") /\ E.doc = NumBytes(E.w)
          /\ E.back = E.v
          /\ \A i \in 1..Len(E.v) : E.sizes[i] = NumBytes(E.w)
TSeq == IsEvent("seq") /\ E.back = E.v /\ E.size = SeqSize(E.w, E.v)
TTwo == IsEvent("two") /\ E.back = <<E.v, E.v>> /\ E.size = 2 * SeqSize(E.w, E.v)
\* Material before and after: contents, shape of the keys.
TMat == /\ IsEvent("material")
        /\ E.after = E.before
        /\ E.before.shape = <<2, E.keylen, Len(E.before.masks)>>
        /\ E.size = SeqSize(E.w, E.before.masks \o E.before.keys \o E.before.randoms \o E.before.zeros \o E.before.errors)
\* Tables garbled with the material and with what was decoded from its encoding, at one party.
TTables == IsEvent("tables") /\ E.status = "done" /\ E.decoded = E.original
TraceInit == l = 1
TraceNext == TInit \/ TElems \/ TSeq \/ TTwo \/ TMat \/ TTables
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
