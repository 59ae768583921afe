------------------------------- MODULE Export -------------------------------
\* Writes the statements, as data, for the harness.
EXTENDS Nipk, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, Statements)
=============================================================================
