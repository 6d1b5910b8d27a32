------------------------------- MODULE OwnMC -------------------------------
EXTENDS Own, TLC, Json
CONSTANTS Objs, MaxOps, Record
VARIABLES w, made, closes, h, n
vars == <<w, made, closes, h, n>>
Init == w = O0 /\ made = 0 /\ closes = <<>> /\ h = <<>> /\ n = 0
Go(o, x, m) == /\ n < MaxOps /\ n' = n + 1 /\ w' = x /\ made' = m /\ h' = IF Record THEN Append(h, o) ELSE h
               /\ closes' = [d \in 1..m |-> (IF d \in DOMAIN closes THEN closes[d] ELSE 0) + (IF d \in w.open \ x.open THEN 1 ELSE 0)]
Next == \/ \E o \in Objs : Go(<<"obj", o>>, Make(w, o, made + 1), made + 1)
        \/ \E a \in DOMAIN w.holds, b \in Objs : a # b /\ Go(<<"mv", a, b>>, MoveTo(w, a, b), made)
        \/ \E a, b \in DOMAIN w.holds : Go(<<"as", a, b>>, Assign(w, a, b), made)
        \/ \E a \in DOMAIN w.holds : Go(<<"cl", a>>, Close(w, a), made) \/ Go(<<"del", a>>, Drop(w, a), made)
Finish == Record /\ n = MaxOps /\ n' = n + 1 /\ PrintT("BEH " \o ToJson(h)) /\ UNCHANGED <<w, made, closes, h>>
Spec == Init /\ [][Next \/ Finish]_vars
Once == \A d \in DOMAIN closes : closes[d] <= 1 /\ (closes[d] = 1 <=> d \notin w.open)
Inv == Owned(w) /\ Once
=============================================================================
