"""Runtime monitors for quantfinlib."""
