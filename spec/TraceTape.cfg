SPECIFICATION TSpec
INVARIANTS TypeOK
PROPERTIES KeepsBefore Protected OnlyWrites
