SPECIFICATION Spec
INVARIANT LawsHold
