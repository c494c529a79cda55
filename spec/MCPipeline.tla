----------------------------- MODULE MCPipeline ------------------------------
EXTENDS Pipeline
OneAnd == <<"AND">>
AndXor == <<"AND", "XOR">>
XorInv == <<"XOR", "INV">>
OneInv == <<"INV">>
Four == <<"AND", "AND", "XOR", "INV">>
=============================================================================
