"""Known findings that are recorded instead of repaired: (id, property, what fails)."""
FINDINGS = [
]
