"""Shared model-checking harness (explicit enumeration on the real code)."""
