"""Runtime monitors for rocketry: deterministic simulation harness + oracle runner."""
