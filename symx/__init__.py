"""symx: symbolic execution of numpy-based Python code over exact real arithmetic."""
