SPECIFICATION Spec
INVARIANTS NotBad Once Agree Tokens
