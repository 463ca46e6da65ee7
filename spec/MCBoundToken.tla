---------------------------- MODULE MCBoundToken -----------------------------
EXTENDS BoundToken
MCAnswers == {[ok |-> TRUE, life |-> 0], [ok |-> TRUE, life |-> 60], [ok |-> TRUE, life |-> 31],
              [ok |-> FALSE, life |-> 0]}
FewAnswers == {[ok |-> TRUE, life |-> 0], [ok |-> TRUE, life |-> 60], [ok |-> FALSE, life |-> 0]}
GoodAnswers == {[ok |-> TRUE, life |-> 0], [ok |-> TRUE, life |-> 60], [ok |-> TRUE, life |-> 30]}
SimpleAnswers == {[ok |-> TRUE, life |-> 0], [ok |-> FALSE, life |-> 0]}
=============================================================================
