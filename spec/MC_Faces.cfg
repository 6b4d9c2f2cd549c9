INIT Init
NEXT Next
INVARIANTS Handshake Manifold HiddenOwnsNothing Restriction Adjacent Emit
CHECK_DEADLOCK FALSE
