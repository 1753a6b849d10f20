"""Trusted contracts of application-level dependencies."""
