--------------------------------- MODULE Disk ---------------------------------
(* The files of the storage directory while state is being saved, as far as a machine that stops at any moment is concerned.
   A file's data is safe once it was handed to the operating system ('flushed') and that was told to write it out ('synced').  What has a name for good - the
   name under which a start looks for it - must at all times be a file that was written completely and is synced, whatever operation comes last or fails. *)
EXTENDS Sequences, TLC

\* names with a "~" in the recording (temp) are those of files that are not ready yet
NewFile == [whole |-> TRUE, flushed |-> TRUE, synced |-> TRUE]
Known(fs, n) == n \in DOMAIN fs
Set(fs, n, v) == (n :> v) @@ fs
Without(fs, n) == [x \in DOMAIN fs \ {n} |-> fs[x]]

\* op = <<what, file, other file, "OK" | "FAIL" | "CRASH">>; st = [fs, err]
DoOp(st, op, final) ==
  LET fs == st.fs
      n == op[2]
      ok == op[4] = "OK"
      change(v) == [st EXCEPT !.fs = Set(fs, n, v)]
      bad(why) == [st EXCEPT !.err = <<why, op>>]
  IN  IF st.err # "" \/ op[4] = "CRASH" THEN st
      ELSE CASE op[1] = "create" -> IF ~ok THEN st ELSE IF n \in final THEN bad("written in place") ELSE change(NewFile)
             [] op[1] = "write"  -> IF n \in final THEN bad("written in place")
                                    ELSE IF ~Known(fs, n) THEN st
                                    ELSE change([fs[n] EXCEPT !.whole = @ /\ ok, !.flushed = FALSE, !.synced = FALSE])
             [] op[1] = "flush"  -> IF ok /\ Known(fs, n) THEN change([fs[n] EXCEPT !.flushed = TRUE]) ELSE st
             [] op[1] = "close"  -> IF ok /\ Known(fs, n) THEN change([fs[n] EXCEPT !.flushed = TRUE]) ELSE st
             [] op[1] = "fsync"  -> IF ok /\ Known(fs, n) THEN change([fs[n] EXCEPT !.synced = fs[n].flushed]) ELSE st
             [] op[1] = "rename" -> IF ~ok \/ ~Known(fs, n) THEN st
                                    ELSE IF op[3] \in final /\ ~fs[n].whole THEN bad("half-written file put in place")
                                    ELSE IF op[3] \in final /\ ~fs[n].synced THEN bad("put in place before it is safely on disk")
                                    ELSE [st EXCEPT !.fs = Without(fs, n)]
             [] op[1] = "unlink" -> IF ok /\ n \in final THEN bad("removed") ELSE IF ok THEN [st EXCEPT !.fs = Without(fs, n)] ELSE st
             [] OTHER -> st

RECURSIVE DoOps(_, _, _)
DoOps(st, ops, final) == IF ops = <<>> THEN st ELSE DoOps(DoOp(st, Head(ops), final), Tail(ops), final)

Final == {"retained.db", "sessions.db", "bridgenames.db", "sharenames.db"}
\* "" or what is wrong with this sequence of file operations
Judge(ops) == DoOps([fs |-> <<>>, err |-> ""], ops, Final).err
===============================================================================
