"""Runtime monitors for JAX-GalSim: drives the real package and watches it with oracles."""
