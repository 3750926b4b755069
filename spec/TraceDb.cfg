SPECIFICATION Spec
CONSTANT Scope = {"res","bulk","iter","sync","fault","dirty","os","disk","create","type","tree","acct","grow","fmt","htx","stat","ro","panic","open","fill"}
INVARIANT TraceTypeOK
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
