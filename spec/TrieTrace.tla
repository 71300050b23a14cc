----------------------------- MODULE TrieTrace ------------------------------
EXTENDS Trie, TraceBase
=============================================================================
