------------------------------- MODULE GenOptF2 -------------------------------
(* Theorems about the generated parsers: every form of an option means the same, *)
(* options of different names commute, a rejected argument leaves every other    *)
(* option as it was, and numbers are read exactly up to their limits.            *)
EXTENDS GenOptF1
LOCAL INSTANCE SequencesExt
S(w) == w \o <<0>>
Row(l, s, t, o, d) == [l |-> l, s |-> s, t |-> t, o |-> o, d |-> d, ph |-> 0]
Kinds == { <<"int", <<0, 0, 0, 7>> >>, <<"ushort", <<0, 0, 0, 7>> >>, <<"ulong", <<0, 0, 0, 7>> >>, <<"size", <<0, 0, 0, 7>> >>, <<"double", <<7>> >>, <<"string", <<7>> >>, <<"callback_arg", <<0>> >> }
Conf(h, n) == { [help |-> h, ver |-> h, noperm |-> n, T |-> <<Row(<<97, 108>>, 97, k[1], o, k[2]), Row(<<98>>, 98, j[1], 0, j[2]), Row(<<>>, 99, "bool", 0, <<0>>)>>] : k \in Kinds, j \in Kinds, o \in {0, 1} }
Vals == { <<49>>, <<48, 120, 49, 48>>, <<45, 53>>, <<54, 53, 53, 51, 53>>, <<54, 53, 53, 51, 54>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<52, 75>>, <<122>>, <<45>>, <<45, 45>>, <<49, 46, 53>> }
DD == <<45, 45>>
Forms(c, v) == {S(DD \o <<97, 108, 61>> \o v), S(DD \o <<97, 61>> \o v), S(<<45, 97>> \o v)}
               \cup (IF c.T[1].o = 1 THEN {} ELSE {S(DD \o <<97, 108>>) \o S(v), S(<<45, 97>>) \o S(v)})
M(c, d) == G!Meaning(c, d)
Same(a, b) == a.z = b.z /\ a.rest = b.rest
ASSUME \A c \in Conf(0, 0), v \in Vals : \A f, g \in Forms(c, v) : Same(M(c, f), M(c, g))
ASSUME \A c \in Conf(1, 0), v, w \in Vals : LET a == S(DD \o <<97, 108, 61>> \o v)
                                                b == S(<<45, 98>> \o w)
                                                x == M(c, a \o b)
                                                y == M(c, b \o a) IN
         /\ x.z.f = y.z.f /\ x.z.p = y.z.p /\ x.z.unk = y.z.unk /\ x.z.bad = y.z.bad
         /\ x.z.bad = (M(c, a).z.bad \/ M(c, b).z.bad)
         /\ 2 \notin x.z.unk => (x.z.p[2] = 1 /\ (x.z.f[2] = M(c, b).z.f[2] \/ M(c, b).z.cb # <<>>))
         /\ x.z.f[3] = <<0>> /\ x.z.p[3] = 0 /\ x.rest = <<>>
\* operands do not change what options mean, and behind "--" nothing is an option
ASSUME \A c \in Conf(0, 0), v \in Vals : LET a == S(<<45, 97>> \o v) IN
         /\ M(c, S(<<120>>) \o a \o S(<<121>>)).z = M(c, a).z
         /\ M(c, S(<<120>>) \o a \o S(<<121>>)).rest = S(<<120>>) \o S(<<121>>)
         /\ M(c, S(DD) \o a).z = M(c, <<>>).z /\ M(c, S(DD) \o a).rest = a
         /\ LET n == [c EXCEPT !.noperm = 1] IN M(n, S(<<120>>) \o a).rest = S(<<120>>) \o a
\* numbers
RECURSIVE Txt(_, _)
Txt(n, b) == (IF n < b THEN <<>> ELSE Txt(n \div b, b)) \o <<(n % b) + (IF n % b < 10 THEN 48 ELSE 87)>>
L(n) == <<0, 0, n \div 65536, n % 65536>>
Some == (0..70) \cup UNION { {2 ^ k - 1, 2 ^ k, 2 ^ k + 1} : k \in 7..30 }
ASSUME \A n \in Some, t \in G!Ints :
         LET fits == G!Le(L(n), G!MaxOf(t)) IN
         /\ G!IntVal(t, Txt(n, 10)) = IF fits THEN <<TRUE, L(n)>> ELSE <<FALSE, G!Zero>>
         /\ G!IntVal(t, Txt(n, 10)) = G!IntVal(t, <<48, 120>> \o Txt(n, 16))
         /\ G!IntVal(t, Txt(n, 10)) = G!IntVal(t, <<48>> \o Txt(n, 8))
         /\ G!IntVal(t, Txt(n, 10) \o <<122>>)[1] \in {fits}
         /\ n > 0 => LET x == G!IntVal(t, <<45>> \o Txt(n, 10)) IN x[1] <=> G!Le(L(n), G!MinOf(t))
ASSUME \A n \in Some : /\ G!SizeVal(Txt(n, 10) \o <<75>>)[2] = G!MulAdd(L(n), 1024, 0)[2]
                       /\ n < 1048576 => G!SizeVal(Txt(n, 10) \o <<77>>) = G!SizeVal(Txt(n * 1024, 10) \o <<75>>)
                       /\ \A u \in {66, 75} : G!SizeVal(Txt(n, 10) \o <<u>>) = G!SizeVal(Txt(n, 10) \o <<u + 32>>)
===============================================================================
