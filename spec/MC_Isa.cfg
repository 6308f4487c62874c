SPECIFICATION Spec
INVARIANTS DecodeThenEncode EncodeThenDecode Mnemonic
CHECK_DEADLOCK FALSE
