SPECIFICATION Spec
INVARIANTS Exclusion TypeOK
