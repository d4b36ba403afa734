------------------------------ MODULE PersistMC ------------------------------
EXTENDS Persist
MCTables == {<<1, 2>>, <<3>>, <<>>}
=============================================================================
