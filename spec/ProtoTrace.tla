----------------------------- MODULE ProtoTrace -----------------------------
(***************************************************************************)
(* Trace validation for C01.  Traces is a file of groups recorded from the *)
(* real readers; run 1 of a group is the undisturbed read, each further    *)
(* run is the same read with a visitor that returns `code' at its k-th     *)
(* callback.  Every recorded event must be a step of the visitor protocol  *)
(* of Geo.tla; a successful read must end between features, with exactly   *)
(* the requested features, null exactly where the source is null and the   *)
(* parts the source announces; an interrupted read must return the code,   *)
(* make no further call, and have delivered a prefix of run 1.             *)
(*   group: [id, n, nulls, must, want, loose, runs]                               *)
(*   n = -1: unknown   must: "ok" | "no" | "any"   want: events other than *)
(*   coordinates, or <<>>                                                  *)
(*   run: [k, code, rc, after, ev]  ev: <<"c", ordinates, payload, n>> ... *)
(***************************************************************************)
EXTENDS Geo, Json
CONSTANTS File, Shard, Shards
VARIABLES g, r, i, p, nf, bad
vars == <<g, r, i, p, nf, bad>>
Traces == JsonDeserialize(File)
Mine == {x \in DOMAIN Traces : x % Shards = Shard}
Run == Traces[g].runs[r]
E(j) == Run.ev[j]
Full == Traces[g].runs[1]
Shape(s) == SelectSeq(s, LAMBDA e : e[1] # "c")

\* binary sources may hold a multi-geometry with parts of another type; the reader announces what is there
Allowed(e) == \/ ProtoEnabled(p, e)
              \/ /\ Traces[g].loose /\ e[1] = "gs" /\ e[2] \in 1..7 /\ e[3] \in Dims
                 /\ p.phase = "body" /\ p.stk # <<>> /\ Top(p.stk)[1] \in {MP, ML, MG}
Init == /\ g \in Mine /\ r = 1 /\ i = 0 /\ p = ProtoInit /\ nf = 0 /\ bad = ""
Consume == /\ bad = "" /\ i < Len(Run.ev)
           /\ IF Allowed(E(i + 1))
              THEN /\ p' = ProtoStep(p, E(i + 1)) /\ bad' = ""
                   /\ nf' = nf + (IF E(i + 1)[1] = "fs" THEN 1 ELSE 0)
              ELSE p' = p /\ nf' = nf /\ bad' = "event not allowed by the protocol"
           /\ i' = i + 1 /\ UNCHANGED <<g, r>>
\* the last event of feature j (1-based) is a null marker exactly if announced
NullAt(ev) == LET fs == SelectSeq(ev, LAMBDA e : e[1] \in {"fs", "nul"}) IN
  FoldLeft(LAMBDA a, e : IF e[1] = "fs" THEN Append(a, 0) ELSE [a EXCEPT ![Len(a)] = 1], <<>>, fs)
G == Traces[g]
Verdict ==
  IF r = 1 THEN
    CASE Run.rc = 0 /\ G.must = "no" -> "success for a malformed source"
      [] Run.rc # 0 /\ G.must = "ok" -> "failure for a well-formed source"
      [] Run.rc = 0 /\ (p.phase \notin {"idle", "done"} \/ p.stk # <<>>) -> "stream not closed at success"
      [] Run.rc = 0 /\ G.n >= 0 /\ nf # G.n -> "wrong number of features"
      [] Run.rc = 0 /\ G.n >= 0 /\ NullAt(Run.ev) # G.nulls -> "nulls not where the source has them"
      [] Run.rc = 0 /\ G.want # <<>> /\ Shape(Run.ev) # G.want -> "not the parts the source announces"
      [] OTHER -> ""
  ELSE
    CASE Run.k > Len(Full.ev) -> "callback index out of range"
      [] Run.rc # Run.code -> "visitor's code not returned"
      [] Run.after # 0 -> "visitor called again after it returned an error"
      [] Run.ev # SubSeq(Full.ev, 1, Run.k) -> "not a prefix of the undisturbed stream"
      [] OTHER -> ""
Close == /\ bad = "" /\ i = Len(Run.ev) /\ Verdict # ""
         /\ bad' = Verdict /\ i' = i + 1 /\ UNCHANGED <<g, r, p, nf>>
NextRun == /\ bad = "" /\ i = Len(Run.ev) /\ Verdict = "" /\ r < Len(G.runs)
           /\ r' = r + 1 /\ i' = 0 /\ p' = ProtoInit /\ nf' = 0 /\ UNCHANGED <<g, bad>>
Spec == Init /\ [][Consume \/ Close \/ NextRun]_vars
\* rejected traces are printed; the check fails if there are any
Rejected == bad # "" => PrintT(<<"CASE", ToJson([id |-> G.id, run |-> r, k |-> Run.k, at |-> i, why |-> bad])>>)
\* every accepted complete run went through the automaton to the end
Balanced == (bad = "" /\ i = Len(Run.ev) /\ r = 1 /\ Run.rc = 0 /\ Verdict = "") => p.stk = <<>>
=============================================================================
