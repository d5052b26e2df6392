"""Property-based checks for CBXpy (harness package; the code under test is imported from /repo)."""
