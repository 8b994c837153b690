"""Property-based checks for openscm-twolayermodel."""
