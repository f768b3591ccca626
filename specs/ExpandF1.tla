------------------------------- MODULE ExpandF1 ------------------------------
EXTENDS ExpandF
NamesV == { <<97>>, <<97, 97>>, <<32>> }
ValuesV == { <<>>, <<36, 97>>, <<98, 92>> }
==============================================================================
