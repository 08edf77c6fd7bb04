"""Deterministic simulator for magnopy."""
