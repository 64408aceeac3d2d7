"""pyvc: a small contract verifier that executes the real Python source of /repo symbolically."""
