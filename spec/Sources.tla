------------------------------- MODULE Sources -------------------------------
(* The run-time parameters of a model or trace-validation run: a JSON document *)
(* named by the environment variable DOC.  Doc.rngs lists the number sources in *)
(* use, by name ([rng, width, dimr]) or, where the code draws them at random,    *)
(* as recorded ([seq]).  Entries [map] are product maps of HUB layers (Layers).    *)
EXTENDS NumberSource, IOUtils, Json
Doc == JsonDeserialize(IOEnv.DOC)
\* RngTab[r] is the number sequence of source handle r
RngTab == TLCEval([k \in 1..Len(Doc.rngs) |->
            IF "seq" \in DOMAIN Doc.rngs[k] THEN Doc.rngs[k].seq
            ELSE IF "map" \in DOMAIN Doc.rngs[k] THEN <<>>
            ELSE SourceSeq(Doc.rngs[k].rng, Doc.rngs[k].width, Doc.rngs[k].dimr)])
=============================================================================
