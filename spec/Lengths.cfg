SPECIFICATION SpecSmall
INVARIANT LengthLaws
