SPECIFICATION Spec
INVARIANT AllAgree
ALIAS Alias
CHECK_DEADLOCK FALSE
