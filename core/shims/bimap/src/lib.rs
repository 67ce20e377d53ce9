// Declared by tlsn-core, not used by it.
