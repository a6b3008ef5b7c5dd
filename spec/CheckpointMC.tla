--------------------------- MODULE CheckpointMC ---------------------------
(***************************************************************************)
(* The steps of checkpoint() and restore_checkpoint() on the file system,    *)
(* one at a time, with a crash possible between any two (and in the middle   *)
(* of writing), and a user who starts the program again each time, who may   *)
(* change the status file, and who may put the previous configuration back.  *)
(* Configurations are numbered by the trajectory after which they were made. *)
(*   cfg, prv   the configuration file and the previous one: <<"no", 0>>,    *)
(*              <<"part", v>> or <<"full", v>>                               *)
(*   st         status file: there?, number of trajectories, trajectory      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxTraj, MaxRuns, Goals
VARIABLES cfg, prv, st, pc, U, traj, goal, runs, saved, wish
vars == <<cfg, prv, st, pc, U, traj, goal, runs, saved, wish>>

No == <<"no", 0>>
Full(v) == <<"full", v>>
Part(v) == <<"part", v>>
NoStatus == [s |-> "no", n |-> 0, tr |-> 0]

Init ==
  /\ cfg = No /\ prv = No /\ st = NoStatus
  /\ pc = "down" /\ U = 0 /\ traj = 0 /\ goal = (CHOOSE g \in Goals : TRUE) /\ runs = 0
  /\ saved = 0          \* the newest configuration that was completely written
  /\ wish = 0           \* the number of trajectories the user has asked for in the status file, 0: none

\* the program starts, and restores what there is
StartUp ==
  /\ pc = "down" /\ runs < MaxRuns /\ runs' = runs + 1
  /\ LET load == st.s # "no" \/ cfg # No
         ok == (st.s # "no" => st.s = "full") /\ (load => cfg[1] = "full")
     IN IF ~ok THEN /\ pc' = "refused" /\ UNCHANGED <<U, traj, goal>>
        ELSE /\ pc' = "run"
             /\ U' = IF load THEN cfg[2] ELSE 0
             /\ traj' = IF st.s = "full" THEN st.tr ELSE 0
             /\ \E g \in Goals : goal' = IF st.s = "full" THEN st.n ELSE g
  /\ UNCHANGED <<cfg, prv, st, saved, wish>>
\* it tells the user, who mends the files
Refused ==
  /\ pc = "refused" /\ pc' = "down"
  /\ \/ cfg[1] # "full" /\ prv[1] = "full" /\ cfg' = prv /\ prv' = No /\ st' \in {st, NoStatus}
     \/ UNCHANGED <<cfg, prv>> /\ st' = NoStatus
     \/ cfg[1] # "full" /\ prv[1] # "full" /\ cfg' = No /\ st' = NoStatus /\ UNCHANGED prv
  /\ wish' = 0
  /\ UNCHANGED <<U, traj, goal, runs, saved>>
\* a trajectory, then the checkpoint begins
Update ==
  /\ pc = "run" /\ traj < goal /\ traj < MaxTraj
  /\ U' = saved + 1 /\ pc' = "rename"
  /\ UNCHANGED <<cfg, prv, st, traj, goal, runs, saved, wish>>
Done == pc = "run" /\ pc' = "down" /\ UNCHANGED <<cfg, prv, st, U, traj, goal, runs, saved, wish>>

RenameOld ==
  /\ pc = "rename" /\ pc' = "open"
  /\ IF cfg # No THEN prv' = cfg /\ cfg' = No ELSE UNCHANGED <<cfg, prv>>
  /\ UNCHANGED <<st, U, traj, goal, runs, saved, wish>>
Open ==
  /\ pc = "open" /\ pc' = "write" /\ cfg' = Part(U)
  /\ UNCHANGED <<prv, st, U, traj, goal, runs, saved, wish>>
WriteCfg ==
  /\ pc = "write" /\ pc' = "read" /\ cfg' = Full(U) /\ saved' = U
  /\ UNCHANGED <<prv, st, U, traj, goal, runs, wish>>
ReadStatus ==
  /\ pc = "read"
  /\ IF st.s = "cut" THEN pc' = "refused" /\ UNCHANGED goal
     ELSE pc' = "trunc" /\ goal' = IF st.s = "full" THEN st.n ELSE goal
  /\ UNCHANGED <<cfg, prv, st, U, traj, runs, saved, wish>>
TruncStatus ==
  /\ pc = "trunc" /\ pc' = "status" /\ st' = [s |-> "cut", n |-> 0, tr |-> 0]
  /\ UNCHANGED <<cfg, prv, U, traj, goal, runs, saved, wish>>
WriteStatus ==
  /\ pc = "status" /\ pc' = "run" /\ st' = [s |-> "full", n |-> goal, tr |-> traj + 1]
  /\ traj' = traj + 1
  /\ UNCHANGED <<cfg, prv, U, goal, runs, saved, wish>>

Crash ==
  /\ pc \in {"run", "rename", "open", "write", "read", "trunc", "status"}
  /\ pc' = "down"
  /\ wish' = IF pc = "status" THEN 0 ELSE wish
  /\ UNCHANGED <<cfg, prv, st, U, traj, goal, runs, saved>>
\* any time until the checkpoint reads the status file
UserEdits ==
  /\ pc \in {"run", "down", "rename", "open", "write", "read"} /\ st.s = "full"
  /\ \E g \in Goals : g # st.n /\ st' = [st EXCEPT !.n = g] /\ wish' = g
  /\ UNCHANGED <<cfg, prv, pc, U, traj, goal, runs, saved>>

Next == StartUp \/ Refused \/ Update \/ Done \/ RenameOld \/ Open \/ WriteCfg \/ ReadStatus \/ TruncStatus \/ WriteStatus
        \/ Crash \/ UserEdits
Spec == Init /\ [][Next]_vars

\* what was saved is never lost: the newest complete configuration or the one before it is there
Safe == saved > 0 => \/ cfg[1] = "full" \/ prv[1] = "full"
\* nothing incomplete is ever loaded
Sound == pc = "run" => (U = 0 \/ U <= saved)
\* the user's edit is honoured: after the next checkpoint the program and the file agree with it
Honoured == /\ (wish > 0 /\ st.s = "full") => st.n = wish
            /\ (wish > 0 /\ pc \in {"trunc", "status"}) => goal = wish
\* with a status file that is complete, a complete checkpoint is resumed with the trajectory after it
InStep == pc = "run" /\ st.s = "full" => st.tr = traj \/ traj = 0
=============================================================================
