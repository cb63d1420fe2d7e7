"""Repository-specific static analyser for awslabs/fortuna (never imports or runs it)."""
