------------------------------- MODULE Honour -------------------------------
(* Which settings can be honoured.  A settings file names a system dictionary, *)
(* a character definition, user dictionaries and three lists of plugins; a     *)
(* list may be absent.  The plugins have settings and definition files of      *)
(* their own.  A dictionary object comes into being exactly if all of it can   *)
(* be honoured.                                                                *)
EXTENDS Integers, Sequences

\* the definition files of the category-driven provider, by what is the matter with them
CharFiles == {"good", "odd", "nofile", "short", "nocategory", "twice", "nolength"}
UnkFiles  == {"good", "odd", "nofile", "short", "nocategory", "undefined", "nonumber", "nopos"}
Sound == {"good", "odd"}

Mecab(m, u)   == [k |-> "mecab", miss |-> "", mchar |-> m, unk |-> u, pos |-> "known"]
Simple(miss, p) == [k |-> "simple", miss |-> miss, mchar |-> "good", unk |-> "good", pos |-> p]
Other(k)      == [k |-> k, miss |-> "", mchar |-> "good", unk |-> "good", pos |-> "known"]
Providers == {Mecab(m, "good") : m \in CharFiles} \cup {Mecab("good", u) : u \in UnkFiles}
             \cup {[Mecab("good", "good") EXCEPT !.miss = x] : x \in {"charDef", "unkDef"}}
             \cup {Simple(x, "known") : x \in {"", "leftId", "rightId", "cost", "oovPOS"}} \cup {Simple("", "unknown")}
             \cup {Other("unknown"), Other("noclass")}
ProviderOk(p) == p.k \in {"mecab", "simple"} /\ p.miss = "" /\ p.pos = "known" /\ p.mchar \in Sound /\ p.unk \in Sound

Rewriters == {[k |-> "numeric", pos |-> "known"], [k |-> "unknown", pos |-> "known"], [k |-> "noclass", pos |-> "known"]}
             \cup {[k |-> "katakana", pos |-> p] : p \in {"known", "unknown", "absent", "empty"}}
RewriterOk(p) == p.k \in {"numeric", "katakana"} /\ p.pos = "known"

Inputs == {"default", "prolonged", "unknown", "noclass", "longmark"}
InputOk(p) == p \in {"default", "prolonged"}

\* a list of plugins: <<"absent">> or <<"list", plugins>>
AllOk(l, Ok(_)) == l.there => \A k \in 1..Len(l.is) : Ok(l.is[k])

Honoured(c) ==
  /\ c.json = "good"
  /\ c.sys = "good"
  /\ c.char = "good"
  /\ \A k \in 1..Len(c.users) : c.users[k] = "good"
  /\ AllOk(c.inp, InputOk)
  /\ AllOk(c.path, RewriterOk)
  /\ c.oov.there /\ c.oov.is # <<>> /\ AllOk(c.oov, ProviderOk)
=============================================================================
