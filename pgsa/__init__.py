"""Static analysis of the pygsp sources (standard library only, nothing is executed)."""
