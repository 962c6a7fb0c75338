"""Static analysis engine for fluidimage (standard library only)."""
