------------------------------ MODULE Tracking ------------------------------
(***************************************************************************)
(* Longitudinal tracking of particles from a start profile to all others.  *)
(* One action per half-turn, as in kick_and_drift: going up, a turn is     *)
(* "drift with turn t's coefficient, then kick with turn t+1's             *)
(* parameters"; going down it is the exact reverse.  Row p of the result   *)
(* is what the particles look like at turn p*dt.  The start is the turn of *)
(* a profile, or a number of turns (less than dt) from it.                 *)
(* 0-based turn t has its programme values at index t+1.                   *)
(***************************************************************************)
EXTENDS Num
VARIABLES
  prog,   \* [v1, v2, phi0, phi12, dE0, drift : sequences over turns, h, dt, np]
  start,  \* start profile
  off,    \* number of turns from the start profile to the start turn (usually 0)
  turn, dir, phi, en,   \* current turn, "up"/"down"/"idle"/"done", coordinates
  ini,    \* [phi, en] the initial distribution
  half,   \* TRUE between the two halves of a turn
  rows,   \* profile -> [phi, en] or <<>> when not recorded yet
  log,    \* operations applied since the start of the current direction
  nact    \* turns completed so far (= progress reported)
kvars == <<prog, start, off, turn, dir, phi, en, ini, half, rows, log, nact>>

LastTurn == prog.dt * (prog.np - 1)
StartTurn == start * prog.dt + off
Volt(t, x) ==
  RAdd(RMul(prog.v1[t+1], RSin(RAdd(x, prog.phi0[t+1]))),
       RSub(RMul(prog.v2[t+1], RSin(RMul(prog.h, RSub(RAdd(x, prog.phi0[t+1]), prog.phi12[t+1])))),
            prog.dE0[t+1]))

Begin(p, r, d, ph0, en0) ==
  /\ prog' = p /\ start' = r /\ off' = d /\ turn' = r * p.dt + d
  /\ phi' = ph0 /\ en' = en0 /\ ini' = [phi |-> ph0, en |-> en0]
  /\ rows' = [k \in 1..p.np |-> IF k = r + 1 /\ d = 0 THEN [phi |-> ph0, en |-> en0] ELSE <<>>]
  /\ half' = FALSE /\ dir' = "up" /\ log' = <<>> /\ nact' = 0

UpDrift ==
  /\ dir = "up" /\ ~half /\ turn < LastTurn
  /\ phi' = [i \in 1..Len(phi) |-> RSub(phi[i], RMul(prog.drift[turn+1], en[i]))]
  /\ half' = TRUE /\ log' = Append(log, <<"drift", turn>>)
  /\ UNCHANGED <<prog, start, off, turn, dir, en, ini, rows, nact>>
UpKick ==
  /\ dir = "up" /\ half
  /\ turn' = turn + 1
  /\ en' = [i \in 1..Len(en) |-> RAdd(en[i], Volt(turn + 1, phi[i]))]
  /\ half' = FALSE /\ log' = Append(log, <<"kick", turn + 1>>) /\ nact' = nact + 1
  /\ rows' = IF (turn + 1) % prog.dt = 0
             THEN [rows EXCEPT ![((turn + 1) \div prog.dt) + 1] = [phi |-> phi, en |-> en']]
             ELSE rows
  /\ UNCHANGED <<prog, start, off, dir, phi, ini>>
TurnBack ==
  /\ dir = "up" /\ ~half /\ turn = LastTurn
  /\ dir' = "down" /\ turn' = StartTurn
  /\ phi' = ini.phi /\ en' = ini.en /\ log' = <<>>
  /\ UNCHANGED <<prog, start, off, ini, half, rows, nact>>
DownKick ==
  /\ dir = "down" /\ ~half /\ turn > 0
  /\ en' = [i \in 1..Len(en) |-> RSub(en[i], Volt(turn, phi[i]))]
  /\ half' = TRUE /\ log' = Append(log, <<"kick", turn>>)
  /\ UNCHANGED <<prog, start, off, turn, dir, phi, ini, rows, nact>>
DownDrift ==
  /\ dir = "down" /\ half
  /\ turn' = turn - 1
  /\ phi' = [i \in 1..Len(phi) |-> RAdd(phi[i], RMul(prog.drift[turn], en[i]))]
  /\ half' = FALSE /\ log' = Append(log, <<"drift", turn - 1>>) /\ nact' = nact + 1
  /\ rows' = IF (turn - 1) % prog.dt = 0
             THEN [rows EXCEPT ![((turn - 1) \div prog.dt) + 1] = [phi |-> phi', en |-> en]]
             ELSE rows
  /\ UNCHANGED <<prog, start, off, dir, en, ini>>
Complete ==
  /\ dir = "down" /\ ~half /\ turn = 0
  /\ dir' = "done"
  /\ UNCHANGED <<prog, start, off, turn, phi, en, ini, half, rows, log, nact>>
KStep == UpDrift \/ UpKick \/ TurnBack \/ DownKick \/ DownDrift \/ Complete
-----------------------------------------------------------------------------
\* What must have been applied between turn a and turn b.
Between(a, b) ==
  IF a <= b THEN [m \in 1..2*(b - a) |-> IF m % 2 = 1 THEN <<"drift", a + (m \div 2)>>
                                                      ELSE <<"kick", a + (m \div 2)>>]
  ELSE [m \in 1..2*(a - b) |-> IF m % 2 = 1 THEN <<"kick", a - (m \div 2)>>
                                            ELSE <<"drift", a - (m \div 2)>>]
ExactlyOnceInOrder == (dir \in {"up", "down"} /\ ~half) => log = Between(StartTurn, turn)
AllRecorded == dir = "done" => \A k \in 1..prog.np : rows[k] # <<>>
StartRowKept == (dir # "idle" /\ off = 0) => rows[start + 1] = ini
EveryTurnCounted == dir = "done" => nact = LastTurn
\* Recorded while the particles were exactly there.
RecordedAtTurn == (dir \in {"up", "down"} /\ ~half /\ turn % prog.dt = 0) =>
   rows[(turn \div prog.dt) + 1] = [phi |-> phi, en |-> en]
=============================================================================
