"""A deployed application package (C15): its modules are imported on demand."""
