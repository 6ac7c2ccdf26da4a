SPECIFICATION Spec
CONSTANT Slots = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
VIEW IView
INVARIANT CanonicalBytes
INVARIANT CutKeepsPrefix
INVARIANT ReportsWhatIsThere
INVARIANT HeaderLaw
INVARIANT TextLaws
