INIT Init
NEXT Next
INVARIANTS Accepted RoundTrip EachOnce CornersKept Emit
CHECK_DEADLOCK FALSE
