---------------------------- MODULE MC_MachineLaws --------------------------
EXTENDS MachineLaws, Req
EnvIds == {i \in ReqIds : Machines[i].kind # "swap"}
=============================================================================
