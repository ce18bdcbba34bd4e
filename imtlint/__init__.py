"""imtlint: repository-specific static analyser for IMTreatment (abstract interpretation over the AST)."""
