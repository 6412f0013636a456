"""Contract-based deductive verification of jax_sgmc."""
