SPECIFICATION Spec
INVARIANTS Good Exclusion Once
