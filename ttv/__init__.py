"""ttv: a deductive contract verifier for the tensor programs of /repo."""
