----------------------------- MODULE LoopRulesMC -----------------------------
(* The rules of LoopRules against what loops do: every loop of up to MaxLen statements on two fields and two    *)
(* variables is executed on a ring of four sites, in every order of the sites and on two ranks.  A loop which    *)
(* is accepted has one result; a single statement which is refused has several.                                  *)
EXTENDS LoopRules, TLC

CONSTANTS MaxLen
N == 4
Sites == 0..N - 1
Orders == {o \in [1..N -> Sites] : \A i, j \in 1..N : o[i] = o[j] => i = j}
F == {"f", "g"}
E == {"s", "t"}
Term == [k : {"F"}, n : F, o : {"here", "up"}, fn : {"none"}] \cup [k : {"E"}, n : E, o : {"here"}, fn : {"none"}]
          \cup {[k |-> "C", n |-> "", o |-> "here", fn |-> "none"]}
Stmt == [op : {"put"}, n : F, how : {"="}, t : Term] \cup [op : {"outer"}, n : E, how : {"=", "+=", "*="}, t : Term]
Par == {"A", "E"}

VARIABLES prog, done
vars == <<st, prog, done>>
MCInit == /\ st = [on |-> TRUE, P |-> "A", safe |-> {}, wr |-> {}, rd |-> {}, acc |-> {}, loc |-> {}, bad |-> FALSE]
          /\ prog = <<>> /\ done = FALSE
Add(s) == /\ Len(prog) < MaxLen /\ prog' = Append(prog, s) /\ done' = FALSE
          /\ IF s.op = "put" THEN PutField(s.n, "here", <<s.t>>) ELSE Outer(s.n, "", s.how, <<s.t>>)
MCNext == \E s \in Stmt : Add(s)
MCSpec == MCInit /\ [][MCNext]_vars

(* ---- what the loop does ---- *)
\* contents without symmetry
Start == [f |-> [x \in Sites |-> <<3, 5, 11, 7>>[x + 1]], g |-> [x \in Sites |-> <<2, 17, 13, 19>>[x + 1]], s |-> 23, t |-> 29]
Val(c, t, x) == CASE t.k = "F" /\ t.o = "here" -> c[t.n][x]
                  [] t.k = "F" -> c[t.n][(x + 1) % N]
                  [] t.k = "E" -> c[t.n]
                  [] OTHER -> 1
M == 10007
Do(c, s, x) == LET v == Val(c, s.t, x)
               IN IF s.op = "put" THEN [c EXCEPT ![s.n][x] = v]
                  ELSE [c EXCEPT ![s.n] = CASE s.how = "=" -> v [] s.how = "+=" -> (@ + v) % M [] OTHER -> (@ * v) % M]
RECURSIVE Body(_, _, _), All(_, _, _)
Body(c, i, x) == IF i > Len(prog) THEN c ELSE Body(Do(c, prog[i], x), i + 1, x)
All(c, o, k) == IF k > Len(o) THEN c ELSE All(Body(c, 1, o[k]), o, k + 1)
Keep(P, o) == SelectSeq(o, LAMBDA x : P = "A" \/ x % 2 = 0)
\* on one rank, in the order o
Serial(P, o) == All(Start, Keep(P, o), 1)
\* on two ranks: each has its sites, the neighbours across the border from before the loop, and its own sums
Added == {n \in E : \E i \in 1..Len(prog) : prog[i].op = "outer" /\ prog[i].n = n /\ prog[i].how = "+="}
Multd == {n \in E : \E i \in 1..Len(prog) : prog[i].op = "outer" /\ prog[i].n = n /\ prog[i].how = "*="}
Rank(P, r) ==       \* sites 2r, 2r+1; values of the other rank stay as they were
  All([Start EXCEPT !.s = IF "s" \in Added /\ r > 0 THEN 0 ELSE IF "s" \in Multd /\ r > 0 THEN 1 ELSE @,
                    !.t = IF "t" \in Added /\ r > 0 THEN 0 ELSE IF "t" \in Multd /\ r > 0 THEN 1 ELSE @],
      Keep(P, <<2 * r, 2 * r + 1>>), 1)
TwoRanks(P) ==
  LET a == Rank(P, 0) b == Rank(P, 1)
      Var(n) == IF n \in Added THEN (a[n] + b[n]) % M ELSE IF n \in Multd THEN (a[n] * b[n]) % M ELSE a[n]
  IN [f |-> [x \in Sites |-> IF x < 2 THEN a.f[x] ELSE b.f[x]], g |-> [x \in Sites |-> IF x < 2 THEN a.g[x] ELSE b.g[x]],
      s |-> Var("s"), t |-> Var("t")]
Results(P) == {Serial(P, o) : o \in Orders} \cup {TwoRanks(P)}

RefusedFor(P) == \/ P = "A" /\ (st.wr \cap st.rd) # {}
                 \/ \E n \in Names : Kinds(n) \notin {{"read"}, {"+="}, {"*="}}
\* the loops that are accepted have a meaning
AcceptedHaveMeaning == \A P \in Par : ~RefusedFor(P) => Cardinality(Results(P)) = 1
\* and a single statement which is refused has none, unless it does nothing but give a variable a constant or its own value
Idle(s) == s.op = "outer" /\ s.how = "=" /\ s.t.k \in {"C", "E"}
NoVariable(s) == s.op = "outer" /\ s.t.k = "E" /\ s.t.n = s.n
RefusedHaveNone ==
  (Len(prog) = 1 /\ ~Idle(prog[1])) => \A P \in Par : RefusedFor(P) => Cardinality(Results(P)) > 1
=============================================================================
