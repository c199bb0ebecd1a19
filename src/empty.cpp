// The library alone.
