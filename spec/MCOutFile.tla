------------------------------ MODULE MCOutFile ------------------------------
EXTENDS OutFileDesign
NamesA == << << "a", "#" >> >>
NamesAB == << << "a", "#" >>, << "b" >> >>
W0 == << >>
WSmall == << "p", "p", "f" >>
W2 == << "p", "p", "p", "f" >>
WIdle == << "p", "f", "q", "p", "f", "z", "p", "f", "z", "p", "f", "z", "p", "f", "z", "i" >>
W4 == << "p", "f", "p", "p", "f", "p", "f" >>
S0 == << >>
SA == << 1 >>
SB == << 2 >>
SBA == << 2, 1 >>
SBB == << 2, 2 >>
SABA == << 1, 2, 1 >>
NoLeft == None
LeftA1 == << "a", "1" >>
LeftX == << "a", "x" >>
=============================================================================
