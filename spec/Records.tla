------------------------------ MODULE Records ------------------------------
(* Batch judging of recorded (input, output) pairs: chunk c of the records is evaluated in one step.            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recs  == ndJsonDeserialize(IOEnv.TRACES)
Chunk == atoi(IOEnv.CHUNK)
NChunks == (Len(Recs) + Chunk - 1) \div Chunk
VARIABLES ck, phase, bad
rvars == <<ck, phase, bad>>
RecInit == ck \in 1..NChunks /\ phase = 0 /\ bad = {}
InChunk(k) == ((k - 1) * Chunk + 1)..(IF k * Chunk < Len(Recs) THEN k * Chunk ELSE Len(Recs))
Judge(Ok(_)) == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED ck
                /\ bad' = {i \in InChunk(ck) : ~Ok(Recs[i])}
                /\ PrintT(<<"CHUNK", ck>>)
                /\ \A i \in bad' : PrintT(<<"BAD", i>>)
NoneBad == bad = {}
=============================================================================
