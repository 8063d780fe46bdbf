"""Runtime monitors for marsh. See DESIGN.md."""
