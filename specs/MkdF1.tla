-------------------------------- MODULE MkdF1 ---------------------------------
EXTENDS MkdF
a == 97
b == 98
S == 47
PathsV == { <<>>, <<a>>, <<b>>, <<a, S>>, <<a, S, b>>, <<a, S, S, b>>, <<a, S, b, S, S>>, <<46>>, <<46, S, a>>, <<a, S, 46>>, <<a, S, 46, 46, S, b>>,
            <<b, S, a, S, b>>, <<S, a>>, <<S, S, b, S, a>>, <<a, S, 46, 46>>, <<46, S>>, <<a, b>>, <<b, S, b>>, <<S>> }
PathsE == {}
SetupsV == { [op |-> "file", p |-> <<a>>], [op |-> "dir", p |-> <<b>>], [op |-> "file", p |-> <<b, S, a>>], [op |-> "link", p |-> <<a>>, q |-> <<b>>], [op |-> "link", p |-> <<b>>, q |-> <<99>>],
             [op |-> "link", p |-> <<b, S, b>>, q |-> <<a>>], [op |-> "dir", p |-> <<a, S, b>>] }
===============================================================================
