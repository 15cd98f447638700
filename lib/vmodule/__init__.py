"""Run modules that the generated catalogues use: they only record what they were given."""
