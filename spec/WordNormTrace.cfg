SPECIFICATION TSpec
INVARIANTS LongRejected OptionsAgree
