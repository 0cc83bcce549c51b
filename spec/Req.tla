--------------------------------- MODULE Req --------------------------------
(* What a check asks of TLC: a JSON file named by the environment variable   *)
(* REQ, e.g. {"machines": ["enc_b64std"], "scale": 1}.                       *)
EXTENDS Json, IOUtils, Naturals, Sequences
Req == JsonDeserialize(IOEnv.REQ)
ReqIds == {Req.machines[i] : i \in 1 .. Len(Req.machines)}
Scale == Req.scale          \* 0 quick, 1 thorough
=============================================================================
