---------------------------- MODULE ScaleGen ----------------------------
EXTENDS Scale, Json, IOUtils
Case(d) == LET c == Circuit(d) IN
  [d |-> d, circ |-> c, asg |-> Assignment(d), signals |-> Signals(d), npubsig |-> Len(PubSignals(d)), lines |-> Lines(d),
   near |-> [i \in 1 .. Len(Changed(d)) |-> << Changed(d)[i], Value(d, Changed(d)[i]) + 1 + Rnd(d.s, 500 + i, 5) >>]]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1 .. Len(ndJsonDeserialize(IOEnv.SCALES)) |-> Case(ndJsonDeserialize(IOEnv.SCALES)[i])])
=======================================================================
