SPECIFICATION Spec
INVARIANTS TypeOK Rooted UniqueNames Refused ReadOnly NothingLost Owned OwnersExist TrackerScope TimeScope DiscSet ValueScope Append_ Usable
CHECK_DEADLOCK FALSE
