------------------------------- MODULE Latency -------------------------------
(* C08. Serving forecasts with latency.  A source is                          *)
(* [noms |-> set of nominal init times, latency |-> L]; times are minutes.     *)
EXTENDS VLib
IssuedBy(s, q) == {n \in s.noms : n + s.latency <= q}
Newest(s, q) == CHOOSE n \in IssuedBy(s, q) : \A m \in IssuedBy(s, q) : m <= n
\* Sources (indices) allowed to serve a request made at time q.
Live(ss, q) == {k \in DOMAIN ss : IssuedBy(ss[k], q) # {}}
Freshest(ss, q) == {k \in Live(ss, q) : \A j \in Live(ss, q) : Newest(ss[j], q) <= Newest(ss[k], q)}
Serving(ss, q) == {k \in Freshest(ss, q) : \A j \in Freshest(ss, q) : ss[j].latency <= ss[k].latency}
=============================================================================
