#!/usr/bin/env python3
"""Builds the checker runtime (checks also build it themselves if it is missing or out of date)."""
import check
print("built", check.build_runtime())
