-------------------------------- MODULE MC --------------------------------
\* constants for the configurations of Noodle
EXTENDS Noodle
Keys1  == <<1>>
Keys12 == <<1, 2>>
Keys11 == <<1, 1>>
Ty000 == <<0, 0, 0>>
Ty02 == <<0, 2>>
Ty203 == <<2, 0, 3>>
Ty024 == <<0, 2, 4>>
Keys111 == <<1, 1, 1>>
Keys121 == <<1, 2, 1>>
\* a list that is only ever read, from an empty storage: what the no-op worker does
ReadOnly ==
  \/ \E n \in NS : Att(n) \/ Att2(n) \/ AttGo(n) \/ AttEnd(n) \/ Wr(n) \/ WrGo(n) \/ Hd(n) \/ Det(n) \/ DetGo(n) \/ CxlCall(n)
  \/ (\E n \in NS : Hold(n)) \/ Rel \/ Quiesce \/ OpR \/ Scan \/ Ext \/ OpCxl
NoopSpec == Init /\ [][ReadOnly]_vars
\* every handle has the default or what was written since; nothing is stored
Noop == fl = <<>> /\ \A n \in NS : nd[n].h = 1 => nd[n].v >= 10
=============================================================================
