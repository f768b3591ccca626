-------------------------------- MODULE WalkF1 --------------------------------
EXTENDS WalkF
\* d a ; f a/x ; d a/b ; f a/b/z ; d c ; l a/l>c ; l k>a
Tree1 == <<100, 32, 97, 10, 102, 32, 97, 47, 120, 10, 100, 32, 97, 47, 98, 10, 102, 32, 97, 47, 98, 47, 122, 10, 100, 32, 99, 10, 108, 32, 97, 47, 108, 62, 99, 10, 108, 32, 107, 62, 97>>
\* d a ; d a/b ; l a/b/up>a ; l a/nil>zz ; l e>c ; d c
Tree2 == <<100, 32, 97, 10, 100, 32, 97, 47, 98, 10, 108, 32, 97, 47, 98, 47, 117, 112, 62, 97, 10, 108, 32, 97, 47, 110, 105, 108, 62, 122, 122, 10, 108, 32, 101, 62, 99, 10, 100, 32, 99>>
\* f a ; p b ; l c>a ; d d ; f d/q ; l d/e>d ; l d/f>d/e
Tree3 == <<102, 32, 97, 10, 112, 32, 98, 10, 108, 32, 99, 62, 97, 10, 100, 32, 100, 10, 102, 32, 100, 47, 113, 10, 108, 32, 100, 47, 101, 62, 100, 10, 108, 32, 100, 47, 102, 62, 100, 47, 101>>
TreesV == {Tree1, Tree2, Tree3}
RootsV == { <<97>>, <<46>>, <<97, 10, 107>>, <<107, 10, 99>>, <<99, 10, 97, 47>>, <<47, 97>>, <<100, 10, 122, 122>>, <<101>> }
RootsS == { <<46>>, <<97, 10, 107>>, <<101>> }
RootsA == { <<97>> }
OptsV == {0, 1} \X {0, 1} \X {0, 1} \X {0, 1} \X {0, 1}
OptsS == { <<0, 0, 0, 0, 0>>, <<1, 1, 0, 0, 0>>, <<0, 1, 1, 0, 0>> }
OptsP == { <<0, 0, 0, 0, 0>> }
OptsF == {0} \X {0, 1} \X {0, 1} \X {0} \X {0}
===============================================================================
